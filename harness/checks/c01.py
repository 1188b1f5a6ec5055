"""C01: sharding partitions the split over all ranks and workers, evenly."""
import collections
import os
import random

from megatron.energon import TaskEncoder, WorkerConfig, get_train_dataset, get_val_dataset
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.webdataset.sharder import Sharder
from megatron.energon.flavors.webdataset.structs import ShardInfo
from megatron.energon import SavableDataset

from harness import dsgen, emul
from harness.resume import reset_globals

PROPERTY = "C01"
LEVEL = "exploration"
RULE = (
    "Assignments recorded for all ranks of random topologies (world size 1..17, workers 0..8, shard layouts with empty, "
    "tiny, and large shards, 1-3 columns, rotation offsets, sequence limits): (a) directly at the sharding entry point, "
    "(b) as handed to the shard loaders of datasets built through the public API from (meta)datasets on disk, "
    "(c) as delivered by the workers. An evaluation is one complete assignment over all ranks checked for conservation, "
    "evenness and slice length; distinct by layout, topology and limit."
)
ASSUMPTIONS = ["the recorded shard counts are the real ones (C09)"]


def plan(tier):
    need = {"assignments": 3000, "built": 60, "delivered": 30, "blend_balance": 30, "with_remainder": 1000, "split_by_limit": 500}
    if tier == "quick":
        return dict(n=900, shards=8, case_timeout=90, budget=150, min_evals=3000, need_events=need)
    return dict(n=20000, shards=8, case_timeout=120, budget=560, min_evals=20000, need_events=need)


def gen(rng, idx, tier):
    mode = ("pure", "built", "delivered")[idx % 3]
    if mode == "pure":
        return dict(mode=mode, seed=rng.randrange(1 << 30), n=60)
    nds = rng.choice([1, 2, 3, 5, 7])
    world, W = rng.choice([1, 2, 3, 4, 5]), rng.choice([0, 1, 2, 3, 4])
    if mode == "delivered":
        nds, world, W = rng.choice([1, 1, 2]), rng.choice([1, 2, 3]), rng.choice([0, 1, 2, 3])
    ds = [dsgen.rand_ds_spec(rng, f"d{i}", max_per=11) for i in range(nds)]
    return dict(mode=mode, ds=ds, world=world, W=W, mss=rng.choice([None, None, 1, 2, 3, 5]), seed=rng.randrange(1 << 30),
                training=mode == "built" and rng.random() < 0.75)


def covered(assign):
    """assign[rank][worker] -> list of slices (each a sequence of column shards). Yields (gw, column names, offset, count)."""
    for r, workers in enumerate(assign):
        for k, slices in enumerate(workers):
            for sub in slices:
                yield r * len(workers) + k, tuple(s.name for s in sub), sub[0].offset, sub[0].count


def check_assignment(rec, shards, assign, world, W, mss, what):
    """shards: list of (column names, count)."""
    nw = max(W, 1)
    G = world * nw
    where = f"{what}; shards {[c for _, c in shards]} world={world} W={W} limit={mss}"
    if not rec.check(len(assign) == world and all(len(a) == nw for a in assign), "shape", lambda: f"workers {[len(a) for a in assign]}, {where}"):
        return
    seen = collections.Counter()
    per = [0] * G
    longest = 0
    for gw, names, off, cnt in covered(assign):
        if not rec.check(cnt >= 0 and off >= 0, "bad-slice", lambda: f"slice {names} offset {off} count {cnt}; {where}"):
            return
        per[gw] += cnt
        longest = max(longest, cnt)
        for i in range(off, off + cnt):
            seen[names, i] += 1
    for a in assign:
        for slices in a:
            for sub in slices:
                rec.check(len({(s.offset, s.count) for s in sub}) == 1, "columns", lambda: f"columns of a slice differ: {sub}; {where}")
    want = {(names, i) for names, cnt in shards for i in range(cnt)}
    dup = [k for k, v in seen.items() if v > 1]
    miss = sorted(want - set(seen))
    extra = sorted(set(seen) - want)
    rec.check(not dup, "duplicate", lambda: f"assigned more than once: {dup[:5]} (of {len(dup)}); {where}")
    rec.check(not miss, "missing", lambda: f"not assigned to any worker: {miss[:5]} (of {len(miss)}); {where}")
    rec.check(not extra, "extra", lambda: f"assigned but not existing: {extra[:5]} (of {len(extra)}); {where}")
    rec.check(max(per) - min(per) <= 1, "uneven", lambda: f"samples per global worker {per}; {where}")
    if mss is not None:
        rec.check(longest <= 1.5 * mss, "too-long", lambda: f"longest slice {longest}; {where}")
        if any(c > 1.5 * mss for _, c in shards):
            rec.ev("split_by_limit")
    rec.ev("assignments")
    if sum(per) % G:
        rec.ev("with_remainder")
    rec.evaluated(f"{[c for _, c in shards]}:{world}:{W}:{mss}")
    return per


def run_case(case, rec):
    reset_globals()
    rng = random.Random(case["seed"])
    if case["mode"] == "pure":
        pure(case, rec, rng)
    else:
        on_disk(case, rec, rng)


def pure(case, rec, rng):
    for _ in range(case["n"]):
        world, W = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 12, 16, 17]), rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 8])
        nsh = rng.choice([1, 1, 2, 3, 5, 9, 20])
        ncol = rng.choice([1, 1, 1, 2, 3])
        style = rng.random()
        if style < 0.25:
            counts = [rng.choice([0, 1, 1, 2]) for _ in range(nsh)]
        elif style < 0.5:
            counts = [rng.choice([0, 1, 5, 60]) for _ in range(nsh)]
        elif style < 0.75:
            counts = [10] * nsh
        else:
            counts = [rng.randint(0, 25) for _ in range(nsh)]
        mss = rng.choice([None, None, 1, 2, 3, 4, 7, 10, 100])
        rot = rng.choice([0, 0, rng.randrange(world * max(W, 1)), rng.randrange(world * max(W, 1))])
        shards = [
            [ShardInfo(name=f"c{c}/s{i}.tar", path=EPath(f"/nowhere/c{c}/s{i}.tar"), offset=0, count=n) for c in range(ncol)]
            for i, n in enumerate(counts)
        ]
        assign = [
            Sharder.shard_workers(
                shards, WorkerConfig(rank=r, world_size=world, num_workers=W), max_samples_per_sequence=mss, rotation_offset=rot,
            )
            for r in range(world)
        ]
        check_assignment(rec, [(tuple(s.name for s in sub), sub[0].count) for sub in shards], assign, world, W, mss,
                         f"sharding {ncol} column(s), rotation {rot}")
    rec.sample = dict(mode="pure", counts=counts, world=world, W=W, limit=mss, rotation=rot)


class Te(TaskEncoder):
    pass


def loaders(ds):
    """The shard loaders within a built dataset, in order (wherever the wrappers keep their inner datasets)."""
    if hasattr(ds, "shards") and hasattr(ds, "parallel_shard_iters"):
        return [ds]
    res = []

    def visit(v):
        if isinstance(v, SavableDataset):
            res.extend(loaders(v))
        elif isinstance(v, (list, tuple)):
            for x in v:
                visit(x)

    for v in vars(ds).values():
        visit(v)
    return list({id(x): x for x in res}.values())


def on_disk(case, rec, rng):
    paths = [dsgen.make_ds(rec.tmp, dict(d, splits={"train": list(range(len(d["shards"]))), "val": list(range(len(d["shards"])))}))[0] for d in case["ds"]]
    meta = os.path.join(rec.tmp, "meta.yaml")
    entries = [dict(path=os.path.relpath(p, rec.tmp), weight=1) for p in paths]
    dsgen.write_meta(meta, dict(train=dict(blend=entries), val=dict(blend=entries)))
    path = paths[0] if len(paths) == 1 else meta
    world, W, mss = case["world"], case["W"], case["mss"]
    nw = max(W, 1)
    per_ds = [[] for _ in paths]
    total = [0] * (world * nw)
    deliv = [collections.Counter() for _ in range(world * nw)]
    for r in range(world):
        wc = WorkerConfig(rank=r, world_size=world, num_workers=W)

        def build():
            if case["training"]:
                return get_train_dataset(path, worker_config=wc, batch_size=None, shuffle_buffer_size=None,
                                         max_samples_per_sequence=mss, task_encoder=Te())
            return get_val_dataset(path, worker_config=wc, batch_size=1, task_encoder=Te())

        if case["mode"] == "delivered":
            for k in range(nw):
                e = emul.EmuWorker(build(), wc, k)
                while (x := e.next()) != emul.END:
                    for t in x.text:
                        deliv[r * nw + k][t] += 1
            continue
        ls = loaders(build())
        assert len(ls) == len(paths), (len(ls), len(paths))
        for i, ld in enumerate(ls):
            per_ds[i].append(ld.shards)
    if case["mode"] == "delivered":
        rec.ev("delivered")
        allc = sum(deliv, collections.Counter())
        want = collections.Counter(dsgen.payload(d["name"], i) for d in case["ds"] for i in range(sum(d["shards"])))
        rec.evaluated(f"delivered:{[d['shards'] for d in case['ds']]}:{world}:{W}")
        where = f"shards {[d['shards'] for d in case['ds']]} world={world} W={W}"
        rec.check(allc == want, "delivered", lambda: f"delivered by all workers: missing {list((want - allc))[:3]}, too often {list((allc - want))[:3]}; {where}")
        for i, d in enumerate(case["ds"]):
            cnt = [sum(v for t, v in c.items() if t.startswith(d["name"] + ":")) for c in deliv]
            rec.check(max(cnt) - min(cnt) <= 1, "uneven", lambda: f"delivered per worker {cnt}; {where}")
        rec.sample = dict(mode="delivered", shards=[d["shards"] for d in case["ds"]], world=world, W=W)
        return
    for d, assign in zip(case["ds"], per_ds):
        shards = [((dsgen.shard_name(i),), n) for i, n in enumerate(d["shards"])]
        per = check_assignment(rec, shards, assign, world, W, mss if case["training"] else None, f"built {'train' if case['training'] else 'val'}, {len(paths)} datasets")
        rec.ev("built")
        if per is None:
            return
        total = [a + b for a, b in zip(total, per)]
    if case["training"] and len(paths) > 1:
        rec.ev("blend_balance")
        rec.evaluated()
        rec.check(max(total) - min(total) <= 1, "blend-uneven",
                  lambda: f"total samples per global worker {total} over datasets with {[d['shards'] for d in case['ds']]} world={world} W={W}")
    rec.sample = dict(mode="built", shards=[d["shards"] for d in case["ds"]], world=world, W=W, training=case["training"], limit=mss)
