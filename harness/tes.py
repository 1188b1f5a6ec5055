"""Random pipelines through the public API: (meta)dataset on disk -> get_train_dataset / get_val_dataset with a
generated TaskEncoder. The user code is the traced code of pipes.py."""
import os

import yaml

from megatron.energon import TaskEncoder, get_train_dataset, get_val_dataset, stateless
from megatron.energon.wrappers.batch_dataset import BatchDataset
from megatron.energon.wrappers.group_batch_dataset import GroupBatchDataset
from megatron.energon.wrappers.packing_dataset import PackingDataset
from megatron.energon.wrappers.shuffle_buffer_dataset import ShuffleBufferDataset

from harness import dsgen, pipes


def gen_te(rng, W=None, training=None, restorable=False, allow_err=True, world=None):
    W = rng.choice([0, 1, 2, 3]) if W is None else W
    world = rng.choice([1, 1, 1, 2, 3]) if world is None else world
    G = max(W, 1) * world
    training = rng.random() < 0.65 if training is None else training
    g = pipes.Gen(rng, W, world, allow_free=not restorable, allow_err=allow_err)
    nds = rng.choice([1, 1, 2, 3])
    for _ in range(nds):
        d = dsgen.rand_ds_spec(rng, f"d{len(g.ds)}", min_total=G)
        if rng.random() < 0.5:
            d["subflavor"] = f"sf{rng.randint(0, 2)}"
        g.ds.append(d)
    split = "train" if training else "val"
    for d in g.ds:
        n = len(d["shards"])
        d["splits"] = {split: list(range(n))}
    # Structure: plain dataset or (nested) metadataset
    if nds == 1:
        meta = rng.choice(["ds", "v1", "v2"])
    else:
        meta = rng.choice(["v1", "v2", "v2", "nested"]) if nds > 2 or rng.random() < 0.5 else rng.choice(["v1", "v2"])
    bs = rng.choice([None, 1, 2, 3, 4]) if training else rng.choice([1, 2, 3])
    te = dict(enc=None, batch=None, eb=None, pack=None, group=None)
    if rng.random() < 0.85:
        te["enc"] = g.beh("enc", restorable_needed=False, gen_ok=True, gen_multi=True)
        if te["enc"].get("gen") and te["enc"]["mode"] == "free":
            te["enc"]["mode"] = "seeded"
    rest = te["enc"] is None or te["enc"]["mode"] != "free"
    if rest and rng.random() < 0.3:
        p = g.beh("p", gen_ok=False)
        p.update(maxpack=rng.choice([1, 2, 3]), reorder=rng.random() < 0.5, drop=rng.random() < 0.2,
                 preskip=rng.choice([0, 0, 4]), preerr=rng.choice([0, 0, 3]) if allow_err else 0)
        te["pack"] = dict(n=rng.choice([1, 2, 4, 7]), beh=p)
        rest = rest and p["mode"] != "free"
    if rest and rng.random() < 0.3:
        b = g.beh("g")
        b.update(groups=rng.choice([1, 2, 3]), gsz=rng.randint(1, 3), fixed=bs is not None)
        te["group"] = dict(sid=b["sid"] + "k", groups=b["groups"], gsz=b["gsz"], fixed=b["fixed"],
                           skip=rng.choice([0, 0, 6]), err=rng.choice([0, 0, 4]) if allow_err else 0)
        te["batch"] = b
    elif bs is not None:
        te["batch"] = g.beh("b", gen_ok=rest, gen_multi=rest)
        if te["batch"].get("gen") and te["batch"]["mode"] == "free":
            te["batch"]["mode"] = "seeded"
    if (bs is not None or te["group"]) and rng.random() < 0.5:
        can_gen = rest and te["batch"]["mode"] != "free"
        te["eb"] = g.beh("eb", gen_ok=can_gen, gen_multi=can_gen)
        if te["eb"].get("gen") and te["eb"]["mode"] == "free":
            te["eb"]["mode"] = "seeded"
    kw = dict(batch_size=bs, batch_drop_last=rng.random() < 0.3)
    if te["pack"]:
        kw["packing_buffer_size"] = te["pack"]["n"]
    if training:
        # a shuffle buffer, after datasets of which all samples are restorable
        kw.update(
            shuffle_buffer_size=rng.choice([None, 1, 3, 8]),
            max_samples_per_sequence=rng.choice([None, None, 1, 2, 4]),
            virtual_epoch_length=rng.choice([0, 0, rng.randint(1, 6) * max(W, 1) + rng.randint(0, max(W, 1) - 1)]),
            shuffle_over_epochs_multiplier=rng.choice([1, 1, 2]),
            parallel_shard_iters=rng.choice([None, 1, 2, 4]),
        )
    else:
        kw.update(limit=rng.choice([None, None, rng.randint(1, 6) * max(W, 1)]))
    spec = dict(
        kind="te", datasets=g.ds, te=te, kw=kw, training=training, meta=meta, W=W, world=world,
        rank=rng.randrange(world), seed_offset=rng.choice([0, 0, 5]), weights=[rng.choice([1, 1, 2, 5]) for _ in g.ds],
        sflavors=[rng.choice([None, {"a": i}]) for i in range(len(g.ds))],
    )
    # Which stages' functions may record the batch index (never those re-run from a buffer)
    buffered = bool(te["pack"]) or bool(te["group"])
    for name in ("enc", "batch", "eb"):
        if te[name]:
            later_gen = any(te[n] and te[n].get("gen") for n in ("enc", "batch", "eb")[("enc", "batch", "eb").index(name):])
            te[name]["rec_b"] = not later_gen and not (name == "enc" and (buffered or (kw.get("shuffle_buffer_size") or 0) > 1))
    if te["group"] and te["batch"]:
        te["batch"]["rec_b"] = False
    if te["pack"]:
        te["pack"]["beh"]["rec_b"] = False
    return spec


def make_te_data(spec, root):
    """Writes datasets and the metadataset; returns the path to load."""
    paths = [dsgen.make_ds(root, d)[0] for d in spec["datasets"]]
    split = "train" if spec["training"] else "val"
    if spec["meta"] == "ds":
        return paths[0]

    def entry(i, v2):
        e = dict(path=os.path.relpath(paths[i], root), weight=spec["weights"][i])
        if not v2:
            e["split_part"] = split
        if spec["sflavors"][i]:
            e["subflavors"] = spec["sflavors"][i]
        return e

    n = len(paths)
    out = os.path.join(root, "meta.yaml")
    if spec["meta"] == "v1":
        dsgen.write_meta(out, {split: dict(datasets=[entry(i, False) for i in range(n)])}, v2=False)
    elif spec["meta"] == "v2":
        es = [entry(i, True) for i in range(n)]
        if spec["training"]:
            dsgen.write_meta(out, {split: dict(blend=es)})
        else:
            for e in es:
                e.pop("weight")
            dsgen.write_meta(out, {split: dict(blend=[dict(e, weight=1) for e in es])})
    else:
        inner = os.path.join(root, "inner.yaml")
        dsgen.write_meta(inner, {split: dict(blend=[entry(i, True) for i in range(1, n)])})
        dsgen.write_meta(out, {split: dict(blend=[entry(0, True), dict(path="inner.yaml", weight=2)])})
    return out


def make_te(te):
    """A TaskEncoder class like a user would write it."""
    ns = {}
    if te["enc"]:
        ns["encode_sample"] = pipes.make_fn(te["enc"]).__func__
    else:
        ns["encode_sample"] = stateless(lambda self, x: pipes.to_ps(x))
    if te["batch"]:
        ns["batch"] = pipes.make_fn(te["batch"]).__func__
    if te["eb"]:
        ns["encode_batch"] = pipes.make_fn(te["eb"]).__func__
    if te["pack"]:
        pre = pipes.make_prepack(te["pack"]["beh"])
        ns["select_samples_to_pack"] = lambda self, xs: pre(xs)
        ns["pack_selected_samples"] = pipes.make_fn(te["pack"]["beh"]).__func__
    if te["group"]:
        grp = pipes.make_group(te["group"])
        ns["batch_group_criterion"] = lambda self, x: grp(x)
    return type("GenTE", (TaskEncoder,), ns)()


def build_te(spec, path, wcfg, probes=None):
    f = get_train_dataset if spec["training"] else get_val_dataset
    ds = f(path, worker_config=wcfg, task_encoder=make_te(spec["te"]), **spec["kw"])
    if probes is not None:
        ds = insert_probes(ds, wcfg, probes)
    return ds


BUF_TYPES = (ShuffleBufferDataset, GroupBatchDataset, PackingDataset, BatchDataset)


def insert_probes(ds, wcfg, probes):
    """Places transparent probes around the buffering wrappers."""
    if getattr(ds, "datasets", None) is not None and isinstance(ds.datasets, (list, tuple)):
        if not hasattr(ds, "inner_dataset"):
            try:
                ds.datasets = type(ds.datasets)(insert_probes(d, wcfg, probes) for d in ds.datasets)
            except TypeError:
                pass
    inner = getattr(ds, "dataset", None)
    if inner is not None and hasattr(inner, "save_state"):
        inner = insert_probes(inner, wcfg, probes)
        ds.dataset = inner
        if isinstance(ds, BUF_TYPES):
            p_in = pipes.Probe(inner, wcfg)
            ds.dataset = p_in
            p_out = pipes.Probe(ds, wcfg)
            probes.append((p_in, p_out))
            return p_out
    return ds


def shape_of(spec):
    te, kw = spec["te"], spec["kw"]

    def b(x):
        return "-" if not x else x.get("mode", "") + (f"g{x['gen']}" if x.get("gen") else "") + ("s" if x.get("skip") else "") + ("e" if x.get("err") else "")

    return (
        f"te[{'T' if spec['training'] else 'V'}{spec['meta']}{len(spec['datasets'])},{b(te['enc'])},"
        f"{b(te['pack'] and te['pack']['beh'])},{b(te['batch'])}{'G' if te['group'] else ''},{b(te['eb'])},"
        f"{kw['batch_size']},{kw.get('shuffle_buffer_size')},{kw.get('max_samples_per_sequence')},"
        f"{bool(kw.get('virtual_epoch_length') or kw.get('limit'))}]"
    )


__all__ = ["gen_te", "make_te_data", "build_te", "shape_of", "insert_probes", "make_te", "yaml"]
