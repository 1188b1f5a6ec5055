"""Synthetic webdatasets: generator specs are JSON-able, contents are a pure function of the spec."""
import hashlib
import io
import os
import random
import tarfile

import yaml


def payload(ds, i, extra=""):
    """Unique content for sample i of dataset ds; the length varies so that tar offsets vary."""
    h = hashlib.sha1(f"{ds}:{i}:{extra}".encode()).hexdigest()
    n = int(h[:4], 16)
    ln = (n % 40) if n % 7 else (500 + n % 700)
    return f"{ds}:{i}:" + (h * (ln // 40 + 1))[:ln]


def key_of(ds, i, keyns=None):
    return f"{keyns or ds}_{i:05d}"


def val_of(text):
    """Stable small integer from the payload text: what user functions decide on."""
    return int(hashlib.sha1(text.encode()).hexdigest()[:8], 16)


def add_file(tar, name, data, mtime=0):
    ti = tarfile.TarInfo(name)
    ti.size = len(data)
    ti.mtime = mtime
    tar.addfile(ti, io.BytesIO(data))


def rand_ds_spec(rng, name, max_shards=5, max_per=9, min_total=1, kind="text"):
    while True:
        n = rng.randint(1, max_shards)
        style = rng.random()
        if style < 0.3:
            shards = [rng.randint(1, 3) for _ in range(n)]
        elif style < 0.6:
            shards = [rng.choice([1, 1, 2, max_per, max_per + 3]) for _ in range(n)]
        else:
            shards = [rng.randint(1, max_per) for _ in range(n)]
        if sum(shards) >= min_total:
            return dict(name=name, shards=shards, kind=kind)


SIZES = (0, 1, 17, 511, 512, 513, 1023, 1024, 1025, 1536, 3000, 10240)


def raw_parts(ds, i):
    """Parts (extension -> bytes) of sample i of a dataset of kind "raw"; a pure function of its arguments."""
    h = int(hashlib.sha1(f"raw:{ds}:{i}".encode()).hexdigest(), 16)
    exts = ["bin", "txt", "x.json", "é.dat"]
    parts = {}
    for j, e in enumerate(exts):
        if j == 0 or (h >> (8 + j)) & 3 == 0:
            n = SIZES[(h >> (16 + 8 * j)) % len(SIZES)]
            seed = hashlib.sha1(f"{ds}:{i}:{e}".encode()).digest()
            parts[e] = (seed * (n // len(seed) + 1))[:n]
    return parts


def shard_name(s):
    return f"parts/data-{s}.tar"


def make_ds(root, spec, prepare=True):
    """Writes the dataset of the spec under root/<name>. Returns (path, info) where info maps
    split -> ordered list of (shard name, [sample ids])."""
    name = spec["name"]
    path = os.path.join(root, spec.get("dir", name))
    os.makedirs(os.path.join(path, "parts"), exist_ok=True)
    i = spec.get("start", 0)
    layout = []
    for s, cnt in enumerate(spec["shards"]):
        ids = []
        with tarfile.open(os.path.join(path, shard_name(s)), "w") as tar:
            for _ in range(cnt):
                k = key_of(name, i, spec.get("keyns"))
                if spec["kind"] == "raw":
                    for e, b in raw_parts(name, i).items():
                        add_file(tar, f"{k}.{e}", b)
                else:
                    add_file(tar, k + ".txt", payload(name, i).encode())
                if spec["kind"] == "multi":
                    add_file(tar, k + ".json", ('{"i": %d, "n": "%s"}' % (i, name)).encode())
                if spec.get("bad") is not None:
                    add_file(tar, k + ".json", b'{"broken": ' if i in spec["bad"] else b'{"ok": 1}')
                ids.append(i)
                i += 1
        layout.append((shard_name(s), ids))
    if prepare:
        prepare_ds(path, spec)
        write_dataset_yaml(path, spec)
    splits = spec.get("splits") or {"train": list(range(len(layout)))}
    return path, {sp: [layout[j] for j in idxs] for sp, idxs in splits.items()}


def prepare_ds(path, spec):
    from megatron.energon.flavors import BaseWebdatasetFactory

    n = len(spec["shards"])
    BaseWebdatasetFactory.prepare_dataset(
        path,
        [shard_name(s) for s in range(n)],
        split_parts_ratio=[("train", 1.0)],
        shuffle_seed=None,
        workers=1,
    )
    splits = spec.get("splits")
    exclude = spec.get("exclude")
    if splits or exclude:
        splits = splits or {"train": list(range(n))}
        with open(os.path.join(path, ".nv-meta", "split.yaml"), "w") as f:
            yaml.dump(
                dict(
                    split_parts={sp: braced(idxs, spec.get("brace")) for sp, idxs in splits.items()},
                    exclude=braced_keys(exclude or [], spec.get("brace")),
                ),
                f,
            )


def braced(idxs, seed):
    """The shard names, in order; with a seed, some runs of them are written as brace patterns."""
    if seed is None:
        return [shard_name(j) for j in idxs]
    rng = random.Random(f"brace{seed}")
    idxs, out = list(idxs), []
    while idxs:
        n = rng.choice([1, 2, 3, 4])
        run, idxs = idxs[:n], idxs[n:]
        if len(run) == 1:
            out.append(shard_name(run[0]))
        elif run == list(range(run[0], run[-1] + 1)) and rng.random() < 0.6:
            out.append("parts/data-{%d..%d}.tar" % (run[0], run[-1]))
        else:
            out.append("parts/data-{%s}.tar" % ",".join(map(str, run)))
    return out


def braced_keys(keys, seed):
    """Excludes; with a seed, neighbours of the same kind are combined into brace patterns."""
    if seed is None:
        return list(keys)
    rng = random.Random(f"bracekey{seed}")
    out, by = [], {}
    for k in keys:
        by.setdefault(k.rsplit("/", 1)[0], []).append(k.rsplit("/", 1)[1])
    for d, ks in by.items():
        while ks:
            n = rng.choice([1, 2, 3])
            run, ks = ks[:n], ks[n:]
            out.append(f"{d}/{run[0]}" if len(run) == 1 else "%s/{%s}" % (d, ",".join(run)))
    return out


def write_dataset_yaml(path, spec, fname="dataset.yaml"):
    kind = spec["kind"]
    if kind in ("text", "multi"):
        d = {
            "sample_type": {"__module__": "megatron.energon", "__class__": "TextSample"},
            "field_map": {"text": "txt"},
        }
    elif kind == "crude":
        d = {"__module__": "megatron.energon", "__class__": "CrudeWebdataset"}
    elif kind == "raw":
        d = {"__module__": "megatron.energon", "__class__": "CrudeWebdataset", "auto_decode": False}
    else:
        raise ValueError(kind)
    for k in ("subflavor", "subflavors"):
        if spec.get(k) is not None:
            d[k] = spec[k]
    with open(os.path.join(path, ".nv-meta", fname), "w") as f:
        yaml.dump(d, f)


def write_meta(path, splits, v2=True):
    with open(path, "w") as f:
        yaml.dump(
            {
                "__module__": "megatron.energon",
                "__class__": "MetadatasetV2" if v2 else "Metadataset",
                "splits": splits,
            },
            f,
        )
