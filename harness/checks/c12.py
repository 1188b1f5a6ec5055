"""C12: blending follows the weights, also through nested metadatasets."""
import math
import os

from harness import pipes, taps
from harness.fp import short

PROPERTY = "C12"
LEVEL = "exploration"
RULE = (
    "(1) Long runs of the real blend over cheap datasets with random weights (ratios up to 1000, zero weights, datasets "
    "without samples for some workers) on several workers and seeds: chi-square tests of the frequencies, of the "
    "dependence of successive draws (lags 1 to 4), between the workers and between seeds, at 1e-12, each dataset's own stream being "
    "checked item by item. (2) Random nested metadatasets of both formats: the flat weights against the product of the "
    "shares along the path, and the origin of the samples that training datasets deliver per worker. (3) Tapped random "
    "pipelines with (nested) blends: conservation per node. An evaluation is one stream or one metadataset; distinct by weights."
)
ASSUMPTIONS = ["a deviation below about 7 standard deviations of a run is not recognised"]
P_MIN = 1e-12


def plan(tier):
    need = {"draws": 200000, "independence_tests": 200, "weights_checked": 100, "meta_draws": 8000, "worker_without_samples": 20, "items:blend": 500, "items:mix": 100}
    if tier == "quick":
        return dict(n=300, shards=10, case_timeout=100, budget=200, min_evals=250, need_events=need)
    return dict(n=4000, shards=10, case_timeout=100, budget=560, min_evals=2500, need_events=need)


def gen(rng, idx, tier):
    m = idx % 3
    if m == 0:
        k = rng.randint(2, 6)
        W = rng.choice([0, 1, 2, 3])
        w = [rng.choice([1, 1, 2, 3, 5, 0.1, 0.01, 10, rng.random()]) for _ in range(k)]
        if rng.random() < 0.2:
            w[rng.randrange(k)] = 0
        if not any(w):
            w[0] = 1
        if rng.random() < 0.2:
            w = [x * rng.choice([1e-3, 1e4]) for x in w]
        lens = [rng.choice([1, 2, 7, 50]) for _ in range(k)]
        empty = [[x for x in range(max(W, 1)) if rng.random() < 0.15] for _ in range(k)]
        keep = max(range(k), key=lambda i: w[i])
        empty[keep] = []
        return dict(mode="stat", W=W, w=w, lens=lens, empty=empty, world=rng.choice([1, 1, 4]), seed=rng.randrange(1 << 20))
    if m == 1:
        return gen_meta(rng)
    W = rng.choice([0, 1, 2, 3])
    g = pipes.Gen(rng, W, rng.choice([1, 2]), allow_err=False)
    kids = [g.node(1) for _ in range(rng.randint(2, 3))]
    wts = [rng.choice([1, 1, 2, 5, 0.3]) for _ in kids]
    if rng.random() < 0.4:
        node = dict(t="mix", kids=kids, w=wts, bs=rng.randint(1, 3), sid=g.sid("x"), inf=True, rest=False)
    else:
        node = dict(t="blend", kids=kids, w=wts, inf=True, rest=all(k["rest"] for k in kids))
    if rng.random() < 0.4:
        node = g.wrap(node, only=("epoch", "limit", "batch", "map"))
    pipes.annotate(node)
    return dict(mode="tap", seed=rng.randrange(1 << 30), spec=dict(datasets=g.ds, node=node, W=W, world=g.world, rank=rng.randrange(g.world), seed_offset=0))


def run_case(case, rec):
    if case["mode"] == "tap":
        taps.drive(case, rec, ("blend", "mix"), n=150)
    elif case["mode"] == "stat":
        run_stat(case, rec)
    else:
        run_meta(case, rec)


# ---------------------------------------------------------------- statistics


def chi2_sf(x, df):
    import torch

    return float(torch.special.gammaincc(torch.tensor(df / 2, dtype=torch.float64), torch.tensor(max(x, 0) / 2, dtype=torch.float64)))


def cells(p, n, least=25):
    """Groups the categories so that each has an expected count of at least `least`. Returns (map, probabilities)."""
    order = sorted(range(len(p)), key=lambda i: -p[i])
    groups, cur = [], []
    for i in order:
        cur.append(i)
        if n * sum(p[j] for j in cur) >= least:
            groups.append(cur)
            cur = []
    if cur:
        if not groups:
            return None, None
        groups[-1] += cur
    return {i: g for g, c in enumerate(groups) for i in c}, [sum(p[i] for i in c) for c in groups]


def freq_test(seq, p):
    n = len(seq)
    m, q = cells(p, n)
    if m is None or len(q) < 2:
        return 1.0
    c = [0] * len(q)
    for x in seq:
        c[m[x]] += 1
    return chi2_sf(sum((o - n * e) ** 2 / (n * e) for o, e in zip(c, q)), len(q) - 1)


def serial_test(seq, p, lag):
    """Good's serial test: dependence of a draw on the one `lag` before."""
    n = len(seq)
    m, q = cells(p, n, least=max(25, n**0.5 * 6))
    if m is None or len(q) < 2:
        return 1.0
    k = len(q)
    s = [m[x] for x in seq]
    c1 = [0] * k
    c2 = [[0] * k for _ in range(k)]
    for i in range(n):
        c1[s[i]] += 1
        c2[s[i]][s[(i + lag) % n]] += 1
    x1 = sum((o - n * e) ** 2 / (n * e) for o, e in zip(c1, q))
    x2 = sum((c2[i][j] - n * q[i] * q[j]) ** 2 / (n * q[i] * q[j]) for i in range(k) for j in range(k))
    return chi2_sf(x2 - x1, k * k - k)


def cross_test(a, pa, b, pb):
    n = min(len(a), len(b))
    ma, qa = cells(pa, n, least=max(25, n**0.5 * 6))
    mb, qb = cells(pb, n, least=max(25, n**0.5 * 6))
    if ma is None or mb is None or len(qa) < 2 or len(qb) < 2:
        return 1.0
    c = [[0] * len(qb) for _ in qa]
    for x, y in zip(a, b):
        c[ma[x]][mb[y]] += 1
    x2 = sum((c[i][j] - n * e * f) ** 2 / (n * e * f) for i, e in enumerate(qa) for j, f in enumerate(qb))
    return chi2_sf(x2, len(qa) * len(qb) - 1)


def counting(i, ln, empty, wcfg):
    """A cheap core dataset: sample j of dataset i, the same number for every worker which is not in `empty`."""
    from megatron.energon import SavableDataset, TextSample

    class Count(SavableDataset):
        def __init__(self):
            self.worker_config = wcfg
            self.starts = 0

        def __len__(self):
            return ln

        def __iter__(self):
            self.starts += 1
            for j in range(0 if wcfg.rank_worker_id() in empty else ln):
                yield TextSample(__key__=f"{i}.{j}", __restore_key__=("C", j), __subflavor__=None, __subflavors__=None, text=(i, j))

        def worker_has_samples(self):
            return wcfg.rank_worker_id() not in empty

        def save_state(self):
            raise NotImplementedError

        merge_states = restore_state = restore_sample = save_state

        def can_restore_sample(self):
            return True

        def assert_can_restore(self):
            pass

        def config(self):
            return {}

        def verify_worker_config(self, w):
            pass

    return Count()


def run_stat(case, rec):
    from megatron.energon import BlendDataset, WorkerConfig

    from harness import emul
    from harness.resume import reset_globals

    reset_globals()
    rec.arm()
    n = 3000
    W = max(case["W"], 1)
    seqs = []
    for off in (0, 1):
        for wid in range(W):
            wc = WorkerConfig(rank=case["seed"] % case["world"], world_size=case["world"], num_workers=case["W"], seed_offset=case["seed"] + off)
            ds = BlendDataset(*[(counting(i, ln, case["empty"][i], wc), w) for i, (ln, w) in enumerate(zip(case["lens"], case["w"]))], worker_config=wc)
            has = [i for i in range(len(case["w"])) if wid not in case["empty"][i]]
            if len(has) < len(case["w"]):
                rec.ev("worker_without_samples")
            tot = sum(case["w"][i] for i in has)
            p = [case["w"][i] / tot if i in has else 0.0 for i in range(len(case["w"]))]
            seq, nxt = [], [0] * len(p)
            with emul.as_worker(wid, case["W"]):
                wc.worker_activate(0)
                try:
                    it = iter(ds)
                    for _ in range(n):
                        x = next(it)
                        i, j = x.text
                        if not rec.check(nxt[i] == j, "stream", lambda: f"dataset {i}: item {j} instead of {nxt[i]} (of {case['lens'][i]})"):
                            return
                        rec.check(tuple(x.__restore_key__) == ("BlendDataset", i, "C", j), "key", lambda: f"restore key {x.__restore_key__} of {x.text}")
                        nxt[i] = (j + 1) % case["lens"][i]
                        seq.append(i)
                finally:
                    wc.worker_deactivate()
            rec.ev("draws", n)
            rec.evaluated(("stat", case["seed"], off, wid))
            for i, w in enumerate(p):
                if w == 0:
                    rec.check(i not in seq, "zero_weight", f"dataset {i} with weight {case['w'][i]} and samples for worker {wid}: {i in has} was drawn")
            pv = freq_test(seq, p)
            rec.ev("frequency_tests")
            rec.check(pv > P_MIN, "frequency", lambda: f"weights {[round(x, 5) for x in p]}, frequencies {[round(seq.count(i) / n, 5) for i in range(len(p))]} of {n} draws: p={pv:.2e}")
            for lag in (1, 2, 3, 4):
                pv = serial_test(seq, p, lag)
                rec.ev("independence_tests")
                rec.check(pv > P_MIN, "serial", lambda: f"draws depend on the draw {lag} before, weights {p}: p={pv:.2e}; {seq[:40]}")
            seqs.append((off, wid, seq, p))
    for a in range(len(seqs)):
        for b in range(a):
            pv = cross_test(seqs[a][2], seqs[a][3], seqs[b][2], seqs[b][3])
            rec.ev("independence_tests")
            rec.check(pv > P_MIN, "cross", lambda: f"draws of worker {seqs[a][:2]} and {seqs[b][:2]} (seed offset, worker) are dependent: p={pv:.2e}")


# ---------------------------------------------------------------- metadatasets


def gen_meta(rng):
    from harness import dsgen

    W, world = rng.choice([0, 1, 1, 2]), rng.choice([1, 1, 2])
    ds = []

    def leaf():
        ds.append(dsgen.rand_ds_spec(rng, f"d{len(ds)}", max_shards=3, max_per=5, min_total=1))
        return len(ds) - 1

    def weight():
        return rng.choice([None, 1, 2, 5, 0.5, 0.1, 7])

    def tree(depth):
        n = rng.randint(1, 3)
        v2 = rng.random() < 0.6
        parts = []
        for _ in range(n):
            if depth < 2 and rng.random() < 0.45:
                parts.append((tree(depth + 1), weight()))
            else:
                parts.append((leaf(), weight()))
        return dict(v2=v2, parts=parts)

    t = tree(0)
    return dict(mode="meta", W=W, world=world, ds=ds, tree=t, seed=rng.randrange(1 << 20))


def run_meta(case, rec):
    from megatron.energon import TaskEncoder, WorkerConfig, get_train_dataset, load_dataset

    from harness import dsgen, emul
    from harness.resume import reset_globals

    reset_globals()
    root = rec.tmp
    for d in case["ds"]:
        dsgen.make_ds(root, d)
    cnt = [0]

    def write(t):
        f = f"m{cnt[0]}.yaml"
        cnt[0] += 1
        es = []
        for x, w in t["parts"]:
            e = dict(path=write(x) if isinstance(x, dict) else case["ds"][x]["name"])
            if w is not None:
                e["weight"] = w
            es.append(e)
        splits = dict(train=dict(blend=es)) if t["v2"] else dict(train=dict(datasets=es))
        dsgen.write_meta(os.path.join(root, f), splits, v2=t["v2"])
        return f

    path = os.path.join(root, write(case["tree"]))
    want = []

    def flat(t, share):
        tot = sum(1.0 if w is None else w for _, w in t["parts"])
        for x, w in t["parts"]:
            s = share * (1.0 if w is None else w) / tot
            if isinstance(x, dict):
                flat(x, s)
            else:
                want.append((case["ds"][x]["name"], s))

    flat(case["tree"], 1.0)
    rec.arm()
    wc = WorkerConfig(rank=case["seed"] % case["world"], world_size=case["world"], num_workers=case["W"], seed_offset=case["seed"])
    got = [(str(f.path).rstrip("/").split("/")[-1], w) for f, w in load_dataset(path).get_datasets(training=True, split_part="train", worker_config=wc)]
    rec.ev("weights_checked")
    rec.evaluated(("meta", case["seed"]))
    rec.check([n for n, _ in got] == [n for n, _ in want] and all(math.isclose(a, b, rel_tol=1e-9) for (_, a), (_, b) in zip(got, want)), "flat_weights",
              lambda: f"tree {short(case['tree'], 400)}: weights {got}, expected {want}")

    class Te(TaskEncoder):
        pass

    # draws
    n = 400
    names = [n_ for n_, _ in want]
    W = max(case["W"], 1)
    for wid in range(W):
        ds = get_train_dataset(path, worker_config=wc, batch_size=None, task_encoder=Te(), shuffle_buffer_size=[None, 4][case["seed"] % 2], max_samples_per_sequence=None)
        seq, err = [], None
        e = emul.EmuWorker(ds, wc, wid)
        try:
            for _ in range(n):
                x = e.next()
                if x == emul.END:
                    break
                seq.append(x.text.split(":")[0])
        except AssertionError as ex:
            if "all empty" not in str(ex):
                raise
            err = ex
        if err is not None or not seq:
            rec.ev("nothing_for_worker")
            continue
        seen = sorted(set(seq))
        # The extra samples are rotated over the workers: what a worker has is taken from what its dataset reports
        has = {}
        with emul.as_worker(wid, case["W"]):
            wc.worker_activate(0)
            try:
                for d, nm in zip(_blend_inputs(ds, len(names)), names):
                    has[nm] = d.worker_has_samples()
            finally:
                wc.worker_deactivate()
        if not all(has.values()):
            rec.ev("worker_without_samples")
        tot = sum(s for nm, s in want if has[nm])
        p = {nm: s / tot if has[nm] else 0.0 for nm, s in want}
        rec.ev("meta_draws", len(seq))
        rec.check(all(p[x] > 0 for x in seen), "unknown_origin", lambda: f"drawn from {seen}, shares {p}")
        idx = {nm: i for i, nm in enumerate(names)}
        pv = freq_test([idx[x] for x in seq], [p[nm] for nm in names])
        rec.ev("frequency_tests")
        rec.check(pv > P_MIN, "meta_frequency", lambda: f"shares {p}, frequencies {({nm: seq.count(nm) / len(seq) for nm in names})} in {len(seq)} draws: p={pv:.2e}")
        # a dataset which has samples appears, unless that is unlikely
        for nm in names:
            if p[nm] and (1 - p[nm]) ** len(seq) < P_MIN:
                rec.check(nm in seen, "meta_missing", lambda: f"dataset {nm} with share {p[nm]} never appeared in {len(seq)} draws")


def _blend_inputs(ds, n):
    """The datasets that the outermost blend draws from (or the single dataset)."""
    from megatron.energon import BlendDataset

    while not isinstance(ds, BlendDataset) and n > 1:
        ds = ds.dataset
    return [d for d, _ in ds.dataset_weights] if n > 1 else [ds]
