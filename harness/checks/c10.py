"""C10: random access into tar shards returns exactly the archived sample bytes."""
import os
import random

from harness import emul, tars
from harness.fp import short

PROPERTY = "C10"
LEVEL = "exploration"
RULE = (
    "Random tar archives (ustar/gnu/pax, long, unicode, dotted and nested names, links, directories, files without "
    "extension, metadata entries, sizes around the block size, all kinds of archive ends) are indexed by the repository and "
    "read through its sample loader: random slices in random order over several workers, all single samples by key, "
    "resumed from saved states at random positions, with part filters and excludes. The oracle compares names, "
    "extensions, bytes and positions with the member list the archive was written from. An evaluation is one sample "
    "compared; distinct by archive, slice and way of access."
)
ASSUMPTIONS = ["parts of a sample are adjacent in the archive and no part occurs twice (webdataset format)"]


def plan(tier):
    need = {"slices": 500, "restored_samples": 1000, "resumed": 200, "filtered_parts": 100, "excluded": 100, "mid_slices": 200}
    if tier == "quick":
        return dict(n=640, shards=10, case_timeout=60, budget=150, min_evals=3000, need_events=need)
    return dict(n=12000, shards=10, case_timeout=60, budget=560, min_evals=50000, need_events=need)


def gen(rng, idx, tier):
    return dict(seed=rng.randrange(1 << 30), shards=[tars.gen_tar(rng) for _ in range(rng.choice([1, 1, 2, 3]))])


def make_loader(case, root, models, W, slices, flt, exclude):
    from megatron.energon.epathlib import EPath
    from megatron.energon.flavors.webdataset.sample_loader import WebdatasetSampleLoaderDataset
    from megatron.energon.flavors.webdataset.structs import ShardInfo
    from megatron.energon import WorkerConfig

    wc = WorkerConfig(rank=0, world_size=1, num_workers=W)
    infos = [
        [
            (ShardInfo(name=f"data-{s}.tar", path=EPath(os.path.join(root, f"data-{s}.tar")), offset=o, count=c),)
            for s, o, c in sl
        ]
        for sl in slices
    ]
    part_filter = None if flt is None else (lambda e: e in flt)
    return wc, WebdatasetSampleLoaderDataset(
        infos, worker_config=wc, exclude=set(exclude), part_filter=part_filter, loop=False, parallel_shard_iters=1
    )


def expected(models, s, i, flt):
    base, parts = models[s][i]
    return dict(
        key=f"data-{s}.tar/{base}",
        shard=f"data-{s}.tar",
        restore=("Webdataset", f"data-{s}.tar", i),
        parts={e: b for e, b in parts.items() if flt is None or e in flt},
    )


def observed(x):
    (x,) = x
    d = dict(x)
    return dict(key=d.pop("__key__"), shard=d.pop("__shard__"), restore=tuple(d.pop("__restore_key__")), parts=d)


def compare(rec, got, want, how, key):
    rec.evaluated((key, how))
    for k in ("key", "shard", "restore"):
        if got[k] != want[k]:
            rec.violation("access-position", f"{how}: {k} is {got[k]!r} instead of {want[k]!r}")
            return False
    if got["parts"] != want["parts"]:
        diff = {e: (short(got["parts"].get(e)), short(want["parts"].get(e))) for e in set(got["parts"]) | set(want["parts"]) if got["parts"].get(e) != want["parts"].get(e)}
        rec.violation("access-content", f"{how}: sample {want['key']!r}: parts differ (got, stored): {diff}")
        return False
    return True


def run_case(case, rec):
    from megatron.energon.flavors.webdataset.prepare import WebdatasetPreparator
    from megatron.energon.epathlib import EPath

    rng = random.Random(case["seed"])
    models = []
    for s, spec in enumerate(case["shards"]):
        p = os.path.join(rec.tmp, f"data-{s}.tar")
        tars.make(p, spec, tag=f"{s}:")
        models.append(tars.model(spec["members"], tag=f"{s}:"))
    WebdatasetPreparator.prepare_dataset(
        EPath(rec.tmp), [f"data-{s}.tar" for s in range(len(models))], split_parts_ratio=[("train", 1.0)], workers=1, tar_index_only=True
    )
    ck = case["seed"]
    for rnd in range(rng.choice([2, 3, 4])):
        W = rng.choice([0, 1, 2, 3])
        slices = []
        for w in range(max(W, 1)):
            sl, seen = [], set()
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                s = rng.randrange(len(models))
                n = len(models[s])
                o = rng.choice([0, rng.randrange(n), rng.randrange(n), n - 1])
                c = rng.choice([n - o, 1, rng.randint(1, n - o)])
                if (s, o) in seen:
                    continue
                seen.add((s, o))
                sl.append((s, o, c))
            slices.append(sl)
        exts = sorted({e for m in models for _, p in m for e in p})
        flt = None if rng.random() < 0.6 else rng.sample(exts, rng.randint(0, len(exts)))
        exclude = []
        if rng.random() < 0.35:
            exclude = [f"data-{s}.tar/{b}" for s, m in enumerate(models) for b, _ in m if rng.random() < 0.25]
        for w in range(max(W, 1)):
            wc, ds = make_loader(case, rec.tmp, models, W, slices, flt, exclude)
            want = [
                expected(models, s, i, flt)
                for s, o, c in slices[w]
                for i in range(o, o + c)
                if f"data-{s}.tar/{models[s][i][0]}" not in exclude
            ]
            rec.ev("excluded", sum(c for _, _, c in slices[w]) - len(want))
            if flt is not None:
                rec.ev("filtered_parts", sum(len(models[s][i][1]) for s, o, c in slices[w] for i in range(o, o + c)) - sum(len(x["parts"]) for x in want))
            rec.ev("slices", len(slices[w]))
            rec.ev("mid_slices", sum(o > 0 and o + c < len(models[s]) for s, o, c in slices[w]))
            how = f"slices {slices[w]} of worker {w}/{W} filter={flt} exclude={exclude}"
            stop = rng.randint(0, len(want)) if rng.random() < 0.6 else None
            drv = emul.EmuWorker(ds, wc, w)
            i = 0
            while True:
                if stop is not None and i == stop:
                    with drv.ctx():
                        state = ds.merge_states([ds.save_state() if v == w else None for v in range(max(W, 1))])
                    wc, ds = make_loader(case, rec.tmp, models, W, slices, flt, exclude)
                    drv = emul.EmuWorker(ds, wc, w, state=state)
                    stop = None
                    # At the very end, nothing is active any more: resuming starts over by design
                    if i >= len(want):
                        break
                    rec.ev("resumed")
                    how += f" resumed at {i}"
                x = drv.next()
                if x is emul.END:
                    rec.check(i == len(want), "access-missing", f"{how}: ended after {i} of {len(want)} samples")
                    break
                if i >= len(want):
                    rec.violation("access-extra", f"{how}: additional sample {observed(x)['key']}")
                    break
                if not compare(rec, observed(x), want[i], how, (ck, rnd, w, i)):
                    break
                i += 1
            if rec.violations:
                return
        # single samples, in random order, through a loader of all shards
        wc, ds = make_loader(case, rec.tmp, models, W, [[(s, 0, len(m)) for s, m in enumerate(models)]] * max(W, 1), flt, [])
        ids = [(s, i) for s, m in enumerate(models) for i in range(len(m))]
        rng.shuffle(ids)
        for s, i in ids[: 12 if len(ids) > 12 and rnd else None]:
            with emul.as_worker(0, W):
                x = ds.restore_sample(("Webdataset", f"data-{s}.tar", i))
            rec.ev("restored_samples")
            if not compare(rec, observed(x), expected(models, s, i, flt), "restore", (ck, rnd, s, i)):
                return
    rec.sample = dict(shards=[len(m) for m in models], fmt=[c["fmt"] for c in case["shards"]], tails=[c["tail"] for c in case["shards"]])
