"""C30: config() tells whether two datasets have the same settings."""
import json
import os
import subprocess
import sys

from harness import dsgen
from harness.core import HarnessError
from harness.fp import diff_path

PROPERTY = "C30"
LEVEL = "exploration"
RULE = (
    "Random pairs of identically built or in exactly one setting different datasets (each wrapper over others; training and validation datasets and "
    "savable and basic loaders of generated datasets, metadatasets, joins and crude data): equal configs for equal settings, before and after iterating, saving "
    "and restoring, as JSON, with a rebuilt dataset and in new interpreters with other hash seeds; different configs for different settings. An evaluation is one "
    "comparison; distinct by compared setting and kind of dataset."
)
ASSUMPTIONS = ["user functions have different names; a changed body of a function is not a changed setting", "seeds are not settings"]


def plan(tier):
    need = {"same": 300, "iterated": 150, "differ:wrapper": 200, "differ:dataset": 80, "json": 200, "processes": 40, "differ:cooker": 15, "loaders": 15}
    if tier == "quick":
        return dict(n=240, shards=10, case_timeout=120, budget=200, min_evals=600, need_events=need)
    return dict(n=4000, shards=10, case_timeout=120, budget=560, min_evals=8000, need_events=need)


def gen(rng, idx, tier):
    m = idx % 12
    mode = "wrapper" if m < 6 else "dataset" if m < 10 else "loader" if m == 10 else "process" if idx % 24 == 11 else "crude"
    return dict(mode=mode, seed=rng.randrange(1 << 30), W=rng.choice([0, 0, 1, 2, 3]))


def run_case(case, rec):
    from harness.resume import reset_globals

    reset_globals()
    globals()["run_" + case["mode"]](case, rec)


# ---------------------------------------------------------------- user functions


def map_a(x):
    return x


def map_b(x):
    return x


def elsewhere(fn):
    """A function of the same name in another module."""
    import types

    f = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__)
    f.__module__ = "harness.samples"
    return f


class Maps:
    def map_a(x):
        return x


map_c, map_d = elsewhere(map_a), Maps.map_a


def iter_a(it):
    yield from it


def iter_b(it):
    yield from it


def keep_a(x):
    return True


def keep_b(x):
    return True


def key_a(x):
    return 0, None


def key_b(x):
    return 1, None


def batch_a(xs):
    return xs[0]


def batch_b(xs):
    return xs[0]


def pack_a(xs):
    return [xs]


def pack_b(xs):
    return [[x] for x in xs]


def join_a(x, y):
    return x


def join_b(x, y):
    return x


def len_a(n):
    return n


def len_b(n):
    return n


# ---------------------------------------------------------------- wrappers


def source(name, wc):
    from harness.checks.c12 import counting

    d = counting(name, 7, [], wc)
    d.config = lambda: {"type": "Count", "name": name}
    d.save_state = lambda: None
    d.merge_states = lambda s: None
    d.restore_state = lambda s: None
    d.restore_sample = lambda k: None
    return d


WRAPPERS = dict(
    batch=dict(batch_size=[1, 2, 3], batcher=[batch_a, batch_b], drop_last=[False, True], batcher_stateless=[True, False], batcher_config=[{"x": 1}, {"x": 2}, None]),
    group=dict(fixed_batch_size=[1, 2, 3], sample_group_key=[key_a, key_b], batcher=[batch_a, batch_b], drop_last=[False, True], batcher_stateless=[True, False], batcher_config=[{"x": 1}, {"x": 2}, None]),
    pack=dict(buffer_size=[1, 2, 5], pre_packer=[pack_a, pack_b], final_packer=[batch_a, batch_b], packer_config=[{"x": 1}, {"x": 2}, None]),
    shuffle=dict(size=[1, 2, 10]),
    limit=dict(length=[1, 2, 10], reset_after_epoch=[True, False]),
    repeat=dict(repeats=[1, 2, 3, None]),
    epoch=dict(length=[1, 2, 10]),
    map=dict(map_fn=[map_a, map_b, map_c, map_d], map_fn_config=[{"x": 1}, {"x": 2}, None], stateless_map_fn=[True, False]),
    itermap=dict(iter_map_fn=[iter_a, iter_b], iter_map_fn_config=[{"x": 1}, {"x": 2}, None], len_map_fn=[len_a, len_b]),
    filter=dict(filter_fn=[keep_a, keep_b], filter_fn_config=[{"x": 1}, {"x": 2}, None]),
    concat=dict(kids=[[0, 1], [1, 0], [0], [0, 1, 2], [0, 0]]),
    blend=dict(kids=[[0, 1], [1, 0], [0, 2]], w=[[1, 1], [1, 2], [2, 1], [0.5, 1]]),
    mix=dict(kids=[[0, 1], [1, 0], [0, 2]], w=[[1, 1], [1, 2], [2, 1]], batch_size=[1, 2, 4], batch_mix_fn=[batch_a, batch_b]),
    gc=dict(),  # transparent: it does not change the samples
)
WC = dict(rank=[0, 1], world_size=[2, 3], num_workers=[0, 1, 2])
# Wrappers whose config does not repeat the worker config (a part of it in the datasets they wrap)
NO_WC = {"map", "itermap", "filter", "concat", "gc"}


def make(kind, kw, kids, wc):
    from megatron.energon import wrappers as w
    from megatron.energon.wrappers.gc_dataset import GcDataset

    cls = dict(batch=w.BatchDataset, group=w.GroupBatchDataset, pack=w.PackingDataset, shuffle=w.ShuffleBufferDataset, limit=w.LimitDataset,
               repeat=w.RepeatDataset, epoch=w.EpochizeDataset, map=w.MapDataset, itermap=w.IterMapDataset, filter=w.FilterDataset,
               concat=w.ConcatDataset, blend=w.BlendDataset, mix=w.MixBatchDataset, gc=GcDataset)[kind]
    kw = dict(kw)
    ks = [kids(i) for i in kw.pop("kids", [0])]
    if kind in ("blend", "mix"):
        return cls(*zip(ks, kw.pop("w")), worker_config=wc, **kw)
    if kind == "pack":
        kw["final_packer_stateless"] = True
    return cls(*ks, worker_config=wc, **kw)


def jdump(c):
    return json.dumps(c, sort_keys=True)


def run_wrapper(case, rec):
    import random

    from megatron.energon import WorkerConfig

    from harness import emul

    rng = random.Random(case["seed"])
    kind = rng.choice(list(WRAPPERS))
    opts = WRAPPERS[kind]
    base = {k: rng.choice(v) for k, v in opts.items()}
    wbase = {k: rng.choice(v) for k, v in WC.items()}
    # what is inside
    inner = rng.choice([None, None] + [k for k in WRAPPERS if k not in ("mix", "gc")])
    ibase = {k: rng.choice(v) for k, v in WRAPPERS[inner].items()} if inner else {}
    if inner == "repeat" and ibase["repeats"] is None:
        ibase["repeats"] = 2
    if inner == "blend" and kind in ("repeat", "concat"):
        inner, ibase = None, {}

    def build(o=base, i=ibase, w=wbase):
        wc = WorkerConfig(seed_offset=0, **w)

        def kid(n):
            return make(inner, i, lambda m: source((n, m), wc), wc) if inner else source(n, wc)

        return make(kind, o, kid, wc), wc

    rec.arm()
    ds, wc = build()
    c0 = ds.config()
    c1 = build()[0].config()
    same(rec, c0, c1, f"two {kind} datasets of the same settings {base}", (kind, inner, "same"))
    rec.evaluated((kind, inner))
    # after iterating
    e = emul.EmuWorker(ds, wc, 0)
    try:
        e.take(rng.randint(1, 5))
    except Exception as ex:
        rec.ev("not_iterable")
        raise HarnessError(f"{kind} {base} over {inner} {ibase}: {type(ex).__name__} {ex}")
    rec.ev("iterated")
    same(rec, c0, ds.config(), f"a {kind} dataset after iterating", (kind, inner, "iterated"))
    # one setting different
    muts = [("o", k, v) for k, vs in opts.items() for v in vs if v != base[k]]
    muts += [("i", k, v) for k, vs in (WRAPPERS[inner] if inner else {}).items() for v in vs if v != ibase[k]]
    if kind not in NO_WC:
        muts += [("w", k, v) for k, vs in WC.items() for v in vs if v != wbase[k]]
    for t, k, v in rng.sample(muts, min(6, len(muts))):
        o, i, w = dict(base), dict(ibase), dict(wbase)
        dict(o=o, i=i, w=w)[t][k] = v
        if inner == "repeat" and i["repeats"] is None:
            continue
        c2 = build(o, i, w)[0].config()
        rec.ev("differ:wrapper")
        what = kind if t == "o" else inner if t == "i" else "worker"
        rec.evaluated((what, k))
        rec.check(jdump(c2) != jdump(c0), f"same:{what}.{k}", lambda: f"{kind} over {inner}: {what} {k} {dict(o=base, i=ibase, w=wbase)[t][k]!r} and {v!r} have the same config {jdump(c0)[:300]}")


def same(rec, a, b, where, key):
    rec.ev("same")
    rec.evaluated()
    rec.check(a == b, "differs", lambda: f"{where}: the config differs at {diff_path(a, b)}")
    try:
        j = jdump(a)
    except (TypeError, ValueError) as e:
        rec.check(False, "json", f"{where}: config cannot be written as JSON: {e}; {str(a)[:300]}")
        return
    rec.ev("json")
    rec.check(j == jdump(b), "differs", lambda: f"{where}: the config differs as JSON: {j[:300]} and {jdump(b)[:300]}")


# ---------------------------------------------------------------- datasets


def te_a():
    from megatron.energon import DefaultTaskEncoder, TaskEncoder

    class EncA(TaskEncoder):
        def encode_sample(self, sample):
            return sample

        def batch(self, samples):
            return samples

    return EncA()


def te_b():
    from megatron.energon import TaskEncoder

    class EncB(TaskEncoder):
        def encode_sample(self, sample):
            return sample

        def batch(self, samples):
            return samples

    return EncB()


def te_c():
    from megatron.energon import TaskEncoder

    class EncC(TaskEncoder):
        def batch(self, samples):
            return samples

        def select_samples_to_pack(self, samples):
            return [samples[:1], samples[1:]] if len(samples) > 1 else [samples]

        def pack_selected_samples(self, samples):
            return samples[0]

    return EncC()


DCS = ["dataset.yaml", "other.yaml", "other2.yaml", "loada.yaml", "loadb.yaml", "type.yaml", "map1.yaml", "map2.yaml", "map3.yaml"]
NOT_ITERABLE = 3  # the data has no such fields


TES = dict(a=te_a, b=te_b, c=te_c)


def data_specs(rng):
    """Settings of a dataset on disk and of how it is loaded: value lists of which one is changed at a time."""
    return dict(
        training=[True, False], path=["a", "b", "m1", "m2", "m3", "j1", "j2", "j3", "j4", "j5"], split=["train", "val"], batch_size=[1, 2, 3],
        batch_drop_last=[False, True], shuffle_buffer_size=[None, 2, 5], max_samples_per_sequence=[None, 1, 3], virtual_epoch_length=[0, 3, 5],
        limit=[None, 2, 4], shuffle_over_epochs_multiplier=[1, 2, -1], parallel_shard_iters=[None, 1, 4], te=["a", "b"], packing_buffer_size=[None, None, None, 4, 6],
        rank=[0, 1], world=[2, 3], W=[0, 1, 2], subflavors=[None, {"x": 1}, {"x": 2}], image_decode=[None, "rgb", "pil"], dataset_config=DCS,
        split_config=["split.yaml", "split2.yaml"],
    )


def cook_a(s):
    from megatron.energon import TextSample, basic_sample_keys

    return TextSample(**basic_sample_keys(s), text=s["txt"])


def cook_b(s):
    return cook_a(s)


def cond_a(s):
    return True


def cond_b(s):
    return True


# Cookers of crude data: settings of the first one
COOKERS = dict(cook=[cook_a, cook_b], is_subflavor=[None, "a"], has_subflavors=[None, {"x": 1}, {"x": 1, "y": 2}], condition=[None, cond_a, cond_b], second=[False, True])


def run_crude(case, rec):
    import random

    from megatron.energon import Cooker, TaskEncoder, WorkerConfig, get_train_dataset, get_val_dataset

    from harness import emul

    rng = random.Random(case["seed"])
    p, _ = dsgen.make_ds(rec.tmp, dict(name="c", shards=[12, 10], kind="crude", subflavors=dict(x=1, y=2), splits=dict(train=[0], val=[1])))
    rec.arm()
    wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
    train = rng.random() < 0.5

    def build(s):
        s = dict(s)
        second = s.pop("second")

        class Enc(TaskEncoder):
            cookers = [Cooker(**s)] + [Cooker(cook_b)] * second

            def batch(self, samples):
                return samples

        kw = dict(worker_config=wc, batch_size=2, task_encoder=Enc())
        return get_train_dataset(p, shuffle_buffer_size=3, max_samples_per_sequence=None, **kw) if train else get_val_dataset(p, **kw)

    s = {k: rng.choice(v) for k, v in COOKERS.items()}
    s["is_subflavor"] = None
    ds = build(s)
    c0 = ds.config()
    same(rec, c0, build(s).config(), "two datasets with the same cooker", ("crude", "same"))
    c0 = json.loads(jdump(c0))
    emul.EmuWorker(ds, wc, 0).take(3)
    rec.ev("iterated")
    same(rec, c0, json.loads(jdump(ds.config())), "a crude dataset after iterating", ("crude", "iterated"))
    for k, v in [(k, v) for k, vs in COOKERS.items() for v in vs if v != s[k]]:
        c2 = build(dict(s, **{k: v})).config()
        rec.ev("differ:cooker")
        rec.evaluated(("crude", k))
        rec.check(jdump(c2) != jdump(c0), f"same:cooker.{k}", lambda: f"cooker {k} {s[k]!r} and {v!r} have the same config")


def make_data(root):
    import yaml

    for nm in "ab":
        spec = dict(name=nm, shards=[12, 14, 11, 15, 13], kind="text", splits=dict(train=[0, 1, 2], val=[3, 4]))
        p, _ = dsgen.make_ds(root, spec)
        f = os.path.join(p, ".nv-meta", "split.yaml")
        s = yaml.safe_load(open(f))
        s["exclude"] = [f"parts/data-{k}.tar/{dsgen.key_of(nm, i)}" for k, i in ((0, 0), (0, 1), (1, 14), (2, 27), (3, 40), (4, 55))]
        yaml.safe_dump(s, open(f, "w"))
        s["exclude"] = s["exclude"][1:]
        yaml.safe_dump(s, open(os.path.join(p, ".nv-meta", "split2.yaml"), "w"))
        d = yaml.safe_load(open(os.path.join(p, ".nv-meta", "dataset.yaml")))
        meta = os.path.join(p, ".nv-meta")
        yaml.safe_dump(dict(d, subflavors={"other": True}), open(os.path.join(meta, "other.yaml"), "w"))
        yaml.safe_dump(dict(d, subflavors={"other": 2}), open(os.path.join(meta, "other2.yaml"), "w"))
        yaml.safe_dump(dict(d, field_map=dict(text="txt,json[text]")), open(os.path.join(meta, "map1.yaml"), "w"))
        yaml.safe_dump(dict(d, field_map=dict(text="json[text]")), open(os.path.join(meta, "map2.yaml"), "w"))
        yaml.safe_dump(dict(d, field_map=dict(text="json[other]")), open(os.path.join(meta, "map3.yaml"), "w"))
        for k in "ab":
            e = dict(d, sample_loader=f"loader.py:load_{k}", part_filter="loader.py:parts")
            del e["field_map"]
            yaml.safe_dump(e, open(os.path.join(meta, f"load{k}.yaml"), "w"))
        yaml.safe_dump(dict(d, sample_type=dict(__module__="harness.samples", __class__="OtherText")), open(os.path.join(meta, "type.yaml"), "w"))
        with open(os.path.join(meta, "loader.py"), "w") as f:
            f.write("def parts(p):\n    return True\n\n\ndef load_a(s):\n    return dict(text=s['txt'])\n\n\ndef load_b(s):\n    return dict(text='x' + s['txt'])\n")
    A, B = dict(path="a"), dict(path="b")
    m = dict(m1=[dict(A, weight=1), dict(B, weight=2)], m2=[dict(A, weight=1), dict(B, weight=3)], m3=[dict(B, weight=2), dict(A, weight=1)])
    for f, es in m.items():
        dsgen.write_meta(os.path.join(root, f + ".yaml"), {s: dict(blend=es) for s in ("train", "val")}, v2=True)
    for f, fn, other in (("j1", "join_a", {}), ("j2", "join_b", {}), ("j3", "join_a", dict(subflavors=dict(z=3)))):
        j = dict(join=[dict(A), dict(A, **other)], joiner=dict(__module__="harness.checks.c30", __function__=fn))
        dsgen.write_meta(os.path.join(root, f + ".yaml"), {s: j for s in ("train", "val")}, v2=True)
    for f, ks in (("j4", "xy"), ("j5", "yx")):
        j = dict(join={k: dict(e) for k, e in zip(ks, (A, dict(A, subflavors=dict(z=3))))}, joiner=dict(__module__="harness.checks.c30", __function__="join_b"))
        dsgen.write_meta(os.path.join(root, f + ".yaml"), {s: j for s in ("train", "val")}, v2=True)


def build_ds(root, s):
    from megatron.energon import WorkerConfig, get_train_dataset, get_val_dataset

    wc = WorkerConfig(rank=s["rank"], world_size=s["world"], num_workers=s["W"])
    p = os.path.join(root, s["path"] + (".yaml" if len(s["path"]) > 1 else ""))
    te = TES["c"]() if s["packing_buffer_size"] else TES[s["te"]]()
    kw = dict(split_part=s["split"], worker_config=wc, batch_size=s["batch_size"], batch_drop_last=s["batch_drop_last"], packing_buffer_size=s["packing_buffer_size"], task_encoder=te)
    for k in ("subflavors",):
        if s[k] is not None:
            kw[k] = s[k]
    if len(s["path"]) == 1:
        if s["image_decode"] is not None:
            kw["image_decode"] = s["image_decode"]
        kw["dataset_config"], kw["split_config"] = s["dataset_config"], s["split_config"]
    if s["training"]:
        return get_train_dataset(p, shuffle_buffer_size=s["shuffle_buffer_size"], max_samples_per_sequence=s["max_samples_per_sequence"], virtual_epoch_length=s["virtual_epoch_length"],
                                 shuffle_over_epochs_multiplier=s["shuffle_over_epochs_multiplier"], parallel_shard_iters=s["parallel_shard_iters"], **kw), wc
    return get_val_dataset(p, limit=s["limit"], **kw), wc


def effective(s):
    """Settings which are used at all."""
    off = set()
    if s["training"]:
        off |= {"limit"}
    else:
        off |= {"shuffle_buffer_size", "max_samples_per_sequence", "virtual_epoch_length", "shuffle_over_epochs_multiplier", "parallel_shard_iters"}
    if len(s["path"]) > 1:
        off |= {"image_decode", "dataset_config", "split_config"}
    if s["packing_buffer_size"]:
        off.add("te")
    return set(s) - off


def run_dataset(case, rec, loader=False):
    import random

    rng = random.Random(case["seed"])
    opts = data_specs(rng)
    make_data(rec.tmp)
    rec.arm()
    s = {k: rng.choice(v) for k, v in opts.items()}
    s["dataset_config"] = rng.choice(DCS[:-NOT_ITERABLE])
    kind = f"{'train' if s['training'] else 'val'}:{s['path'][0]}"

    from harness import emul

    (ds, wc), (ds2, _) = build_ds(rec.tmp, s), build_ds(rec.tmp, s)
    c0 = json.loads(jdump(ds.config()))
    same(rec, ds.config(), ds2.config(), f"two {kind} datasets of the same settings {s}", (kind, "same"))
    rec.evaluated((kind,))
    # iterating, saving, restoring
    e = emul.EmuWorker(ds, wc, 0)
    e.take(rng.randint(1, 12))
    same(rec, c0, json.loads(jdump(ds.config())), f"a {kind} dataset after iterating", (kind, "iterated"))
    rec.ev("iterated")
    if s["W"] <= 1:
        st, _ = e.save()
        same(rec, c0, json.loads(jdump(ds.config())), f"a {kind} dataset after saving", (kind, "saved"))
        m = ds.merge_states([st])
        ds2.restore_state(m)
        same(rec, c0, json.loads(jdump(ds2.config())), f"a {kind} dataset after restoring", (kind, "restored"))
        e2 = emul.EmuWorker(ds2, wc, 0)
        e2.take(2)
        same(rec, c0, json.loads(jdump(ds2.config())), f"a {kind} dataset after restoring and iterating", (kind, "resumed"))
    eff = effective(s)
    muts = [(k, v) for k in eff for v in opts[k] if v != s[k] and k != "training"]
    if s["te"] is not None and not s["packing_buffer_size"]:
        muts.append(("training", not s["training"]))
    muts.sort(key=repr)
    if "dataset_config" in eff:
        base = dict(s)
        for a, b in rng.sample([(a, b) for i, a in enumerate(DCS) for b in DCS[:i]], 4):
            x, y = (build_ds(rec.tmp, dict(base, dataset_config=n))[0].config() for n in (a, b))
            rec.ev("differ:dataset")
            rec.evaluated((kind, a, b))
            rec.check(jdump(x) != jdump(y), "same:dataset_config", lambda: f"{kind}: {a} and {b} have the same config")
    for k, v in rng.sample(muts, min(8, len(muts))):
        t = dict(s)
        t[k] = v
        if k == "packing_buffer_size" and (v is None) == (s[k] is None) and v is None:
            continue
        if k == "path" and not s["training"] and {v, s[k]} == {"m1", "m2"}:
            continue  # no weights in validation
        c2 = build_ds(rec.tmp, t)[0].config()
        rec.ev("differ:dataset")
        rec.evaluated((kind, k))
        rec.check(jdump(c2) != jdump(c0), f"same:{k}", lambda: f"{kind}: {k} {s[k]!r} and {v!r} have the same config; {s}")


def run_loader(case, rec):
    import random

    from megatron.energon import get_loader, get_savable_loader

    from harness.resume import close_loader

    rng = random.Random(case["seed"])
    opts = data_specs(rng)
    make_data(rec.tmp)
    rec.arm()
    s = {k: rng.choice(v) for k, v in opts.items()}
    s["W"] = case["W"]
    s["dataset_config"] = rng.choice(DCS[:-NOT_ITERABLE])
    cs = []
    for _ in range(2):
        for get in (get_savable_loader, get_loader):
            ld = get(build_ds(rec.tmp, s)[0])
            c0 = jdump(ld.config())
            it = iter(ld)
            for _, x in zip(range(5), it):
                pass
            rec.ev("loaders")
            rec.evaluated(("loader", get.__name__, s["W"]))
            same(rec, json.loads(c0), json.loads(jdump(ld.config())), f"a {get.__name__} after iterating", ("loader",))
            if get is get_savable_loader:
                ld.save_state_rank()
                same(rec, json.loads(c0), json.loads(jdump(ld.config())), "a savable loader after saving", ("loader",))
            cs.append(json.loads(c0))
            close_loader(ld)
            del it, ld
    same(rec, cs[0], cs[2], "two savable loaders of the same dataset", ("loader", "same"))
    same(rec, cs[1], cs[3], "two basic loaders of the same dataset", ("loader", "same"))


PROC = """
import sys, json, random, io, contextlib
sys.path.insert(0, sys.argv[1])
from harness.checks import c30
specs = json.load(open(sys.argv[3]))
out = []
with contextlib.redirect_stdout(io.StringIO()):
    for s in specs:
        out.append(c30.build_ds(sys.argv[2], s)[0].config())
json.dump(out, open(sys.argv[4], "w"))
"""


def run_process(case, rec):
    import random

    from harness.core import VERIF

    rng = random.Random(case["seed"])
    opts = data_specs(rng)
    data = os.path.join(rec.tmp, "data")
    os.makedirs(data)
    make_data(data)
    specs = [{k: rng.choice(v) for k, v in opts.items()} for _ in range(25)]
    sp = os.path.join(rec.tmp, "specs.json")
    json.dump(specs, open(sp, "w"))
    mine = [json.loads(jdump(build_ds(data, s)[0].config())) for s in specs]
    rec.arm()
    for h in rng.sample(range(1, 1000), 2):
        out = os.path.join(rec.tmp, f"out{h}.json")
        env = dict(os.environ, PYTHONHASHSEED=str(h), PYTHONPATH=os.pathsep.join(sys.path))
        r = subprocess.run([sys.executable, "-c", PROC, VERIF, data, sp, out], env=env, capture_output=True, text=True, timeout=100)
        if r.returncode:
            raise HarnessError(r.stderr[-1500:])
        for s, a, b in zip(specs, mine, json.load(open(out))):
            rec.ev("processes")
            rec.evaluated(("process", s["training"], s["path"]))
            same(rec, a, b, f"two processes, the same settings {s}", ("process",))
