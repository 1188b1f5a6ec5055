"""Helpers of the demonstration (stand-alone)."""
import contextlib
import functools
import hashlib
import io
import os
import shutil
import sys
import tarfile
import tempfile

sys.path.insert(0, os.path.join(os.getcwd(), "src"))


@contextlib.contextmanager
def scratch():
    import gc

    import megatron.energon  # noqa: F401

    gc.collect()
    gc.freeze()  # the loaders collect garbage after each item: keep that affordable
    d = tempfile.mkdtemp(prefix="demo_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def add(tar, name, data):
    if isinstance(data, str):
        data = data.encode()
    ti = tarfile.TarInfo(name)
    ti.size = len(data)
    tar.addfile(ti, io.BytesIO(data))


def text_ds(root, name, shards, ratio=(("train", 1.0),), exclude=(), keyns=None):
    """Text dataset <root>/<name> with the given numbers of samples per shard; sample i has text '<name>:<i>'."""
    from megatron.energon.flavors import BaseWebdatasetFactory

    path = os.path.join(root, name)
    os.makedirs(os.path.join(path, "parts"), exist_ok=True)
    i = 0
    for s, n in enumerate(shards):
        with tarfile.open(os.path.join(path, f"parts/data-{s}.tar"), "w") as tar:
            for _ in range(n):
                add(tar, f"{keyns or name}_{i:05d}.txt", f"{name}:{i}")
                i += 1
    BaseWebdatasetFactory.prepare_dataset(
        path, [f"parts/data-{s}.tar" for s in range(len(shards))], split_parts_ratio=list(ratio), shuffle_seed=None, workers=1
    )
    with open(os.path.join(path, ".nv-meta", "dataset.yaml"), "w") as f:
        f.write(
            "__module__: megatron.energon\n__class__: TextWebdataset\nsubflavor: null\nsubflavors: {src: %s}\nfield_map:\n  text: txt\n" % name
        )
    if exclude:
        import yaml

        p = os.path.join(path, ".nv-meta", "split.yaml")
        y = yaml.safe_load(open(p))
        y["exclude"] = list(exclude)
        yaml.safe_dump(y, open(p, "w"))
    return path


def wcfg(workers=0, rank=0, world=1, **kw):
    from megatron.energon import WorkerConfig

    return WorkerConfig(rank=rank, world_size=world, num_workers=workers, **kw)


def raw(path, wc, training=False, split="train", **kw):
    """The plain dataset (no task encoder)."""
    from megatron.energon.dataset_config import get_dataset_from_config
    from megatron.energon.epathlib import EPath

    return get_dataset_from_config(EPath(path), training=training, split_part=split, worker_config=wc, **kw).build()


def texts(xs):
    return [x.text for x in xs]


def take(it, n):
    out = []
    it = iter(it)
    for _ in range(n):
        out.append(next(it))
    return out


def emul(wc, worker=0):
    """Context: pretend to be the given worker of this process."""
    from megatron.energon import WorkerConfig

    @contextlib.contextmanager
    def ctx():
        import torch.utils.data._utils.worker as w

        info = w.WorkerInfo(id=worker, num_workers=max(wc.num_workers, 1), seed=0, dataset=None)
        old = w._worker_info
        w._worker_info = info if wc.num_workers else None
        wc.worker_activate(0)
        try:
            yield
        finally:
            wc.worker_deactivate()
            w._worker_info = old

    return ctx()


def fail(msg):
    print("FAILED:", msg)
    sys.exit(1)


def ensure(cond, msg):
    if not cond:
        fail(msg)
