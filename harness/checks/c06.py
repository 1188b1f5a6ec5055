"""C06: topologies with the same number of global workers give every global worker the same samples."""
import copy
import random

from megatron.energon import WorkerConfig

from harness import dsgen, emul, pipes, tes
from harness.checks import c15
from harness.fp import diff_path, first_diff, fp, short
from harness.resume import Pipe, close_loader, merged_order, reset_globals

PROPERTY = "C06"
LEVEL = "exploration"
RULE = (
    "Random datasets (single, Metadataset V1 / V2, nested blends, joins, crude), task encoders (skips, errors, generators, "
    "packing, groups, random draws in the user code) and settings, training and validation, in all factorizations world_size x num_workers of "
    "2 to 12 global workers: the stream of each global worker (all fields, restore keys, random draws, indexes as the worker counts "
    "them, ends of passes) must be the same in each of them. Limits and virtual epochs are scaled to the same share per worker. In real loaders of all ranks of two "
    "topologies, each rank must deliver its workers' streams round robin, and the global batches must consist of the same items. "
    "An evaluation is one worker in one topology compared with another one; distinct by pipeline, settings and topologies."
)
ASSUMPTIONS = ["at least one worker per rank: without workers, the global random state belongs to the user"]


def plan(tier):
    need = {"tokens": 20000, "train": 150, "val": 60, "join": 60, "blend": 150, "real": 10, "global_batches": 100, "ends": 100, "slices": 100, "draws": 200}
    if tier == "quick":
        return dict(n=420, shards=8, case_timeout=90, budget=200, min_evals=1500, need_events=need)
    return dict(n=9000, shards=8, case_timeout=90, budget=560, min_evals=20000, need_events=need)


def factorizations(G):
    return [(G // w, w) for w in range(1, G + 1) if G % w == 0]


def gen(rng, idx, tier):
    G = rng.choice([2, 3, 4, 4, 6, 8, 12])
    tops = factorizations(G)
    rng.shuffle(tops)
    tops = tops[:4]
    mode = "join" if idx % 4 == 3 else "te"
    real = idx % 20 == 0
    if real:
        G = rng.choice([2, 2, 3, 4])
        tops = factorizations(G)
    if mode == "join":
        j = c15.gen(rng, 0, tier)
        while sum(j["shards"]) < G:
            j["shards"].append(rng.randint(1, 6))
        j.update(exclude=[], brk=None)
        return dict(mode=mode, G=G, tops=tops, join=j, real=False, n=rng.randint(5, 30), seed=rng.randrange(1 << 30), offset=rng.choice([0, 3]))
    # in gen_te, W only determines sizes
    spec = tes.gen_te(rng, W=G, world=1)
    kw = spec["kw"]
    # the share of a worker, see scaled()
    vel = rng.choice([0, 0, rng.randint(1, 6)]) if spec["training"] and not real else 0
    lim = rng.choice([None, None, rng.randint(1, 6)]) if not spec["training"] else None
    kw.pop("virtual_epoch_length", None)
    kw.pop("limit", None)
    return dict(mode=mode, G=G, tops=tops, spec=spec, vel=vel, lim=lim, real=real, n=rng.randint(5, 24), seed=rng.randrange(1 << 30))


def scaled(case, world, W, rank):
    spec = copy.deepcopy(case["spec"])
    spec.update(W=W, world=world, rank=rank)
    if spec["training"]:
        spec["kw"]["virtual_epoch_length"] = case["vel"] * W
    else:
        spec["kw"]["limit"] = None if case["lim"] is None else case["lim"] * W
    return spec


class Maker:
    def __init__(self, case, root):
        self.case, self.root = case, root
        if case["mode"] == "te":
            self.data = tes.make_te_data(case["spec"], root)
        else:
            j = case["join"]
            split = list(range(len(j["shards"])))
            random.Random(j["seed"]).shuffle(split)
            for c, comp in enumerate(c15.sample_ids(j)):
                c15.write_component(root, c, comp, split, [])
            refs = [dict(path=f"c{c}") for c in range(j["n"])]
            join = dict(join=refs if j["how"] != "dict" else dict(zip(["first", "second", "third"], refs)))
            join["joiner"] = {
                "default": dict(__module__="harness.samples", __class__=f"J{j['n']}"),
                "list": dict(__module__="harness.samples", __function__="join_list"),
                "dict": dict(__module__="harness.samples", __function__="join_kw"),
            }[j["how"]]
            if j["blend"]:
                join = dict(blend=[dict(join, weight=2), dict(join, weight=1)])
            dsgen.write_meta(f"{root}/m.yaml", dict(train=join))

    def make(self, world, W, rank):
        """(dataset, worker config) of a rank."""
        if self.case["mode"] == "join":
            wc = WorkerConfig(rank=rank, world_size=world, num_workers=W, seed_offset=self.case["offset"])
            return c15.mk(self.case["join"], self.root, wc, False), wc
        spec = scaled(self.case, world, W, rank)
        wc = pipes.wcfg_of(spec)
        return tes.build_te(spec, self.data, wc), wc


def run_case(case, rec):
    reset_globals()
    pipes.LOCAL_INDEX = True
    try:
        run(case, rec)
    except pipes.Spin:
        rec.ev("spin")
    finally:
        pipes.LOCAL_INDEX = False
        reset_globals()


def run(case, rec):
    m = Maker(case, rec.tmp)
    rng = random.Random(case["seed"])
    G, tops, n = case["G"], [tuple(t) for t in case["tops"]], case["n"]
    shape = tes.shape_of(case["spec"]) if case["mode"] == "te" else str({k: case["join"][k] for k in ("n", "how", "kind", "shards", "soe", "psi", "mss", "blend")})
    where = f"{shape}, G={G}, vel={case.get('vel')}, limit={case.get('lim')}"
    rec.sample = dict(shape=shape, G=G, tops=tops)
    workers = range(G) if case["real"] or G <= 4 else sorted(rng.sample(range(G), 4))
    train = case["spec"]["training"] if case["mode"] == "te" else case["join"]["kind"] == "train"
    ref = {}
    for g in workers:
        for i, (world, W) in enumerate(tops):
            ds, wc = m.make(world, W, g // W)
            e = emul.EmuWorker(ds, wc, g % W)
            s = [fp(e.next()) for _ in range(n)]
            e.close()
            rec.ev("tokens", n)
            if i == 0:
                ref[g] = s
                rec.ev("ends", s.count(emul.END))
                continue
            rec.evaluated(f"{where}:{g}:{tops[0]}:{(world, W)}")
            if s != ref[g]:
                k = first_diff(ref[g], s)
                rec.violation("stream", f"worker {g} gets another item {k} in {world}x{W} than in {tops[0][0]}x{tops[0][1]}: {diff_path(ref[g][k], s[k])}; {where}")
                return
    rec.ev("train" if train else "val")
    if case["mode"] == "join":
        rec.ev("join")
        if case["join"]["mss"]:
            rec.ev("slices")
    else:
        sp = case["spec"]
        if len(sp["datasets"]) > 1:
            rec.ev("blend")
        if sp["kw"].get("max_samples_per_sequence"):
            rec.ev("slices")
        if any(sp["te"][k] and sp["te"][k]["mode"] in ("seeded", "free") for k in ("enc", "batch", "eb")):
            rec.ev("draws")
    if case["real"]:
        real(case, rec, m, ref, rng, where)


def real(case, rec, m, ref, rng, where):
    from megatron.energon import get_loader, get_savable_loader

    n = case["n"]
    batches = []
    for world, W in rng.sample([tuple(t) for t in case["tops"]], 2):
        steps = [[] for _ in range(n)]
        got_all = True
        for r in range(world):
            ds, wc = m.make(world, W, r)
            want = [t for t, _ in merged_order([ref[r * W + k] for k in range(W)], n * W, W)]
            ld = (get_loader if rng.random() < 0.4 else get_savable_loader)(ds)
            got = []
            try:
                while len(got) < len(want):
                    for x in ld:
                        if x.__restore_key__[:1] in (("SavableDatasetWrapper",), ("SimpleSavableDatasetWrapper",)):
                            x.__restore_key__ = x.__restore_key__[3:]
                        got.append(fp(x))
                        if len(got) >= len(want):
                            break
                    else:
                        got.append(emul.END)
            finally:
                close_loader(ld)
            rec.ev("real")
            rec.evaluated(f"{where}:real:{world}x{W}:{r}")
            k = first_diff(want, got[: len(want)])
            if k is not None:
                rec.violation("loader", f"rank {r} of {world}x{W} delivers another item {k}: {diff_path(want[k], got[k])}; {where}")
                return
            for i in range(n):
                part = got[i * W : (i + 1) * W]
                if len(part) < W or emul.END in part:
                    got_all = False
                steps[i] += [repr(x) for x in part]
        if got_all:
            batches.append([sorted(s) for s in steps])
    if len(batches) == 2:
        rec.ev("global_batches", n)
        k = first_diff(batches[0], batches[1])
        rec.check(k is None, "global-batch", lambda: f"global batch {k} differs: {short(batches[0][k])} / {short(batches[1][k])}; {where}")
