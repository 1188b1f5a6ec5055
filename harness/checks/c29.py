"""C29: shuffling and augmentation really are random, as configured, and independent between workers."""
import math
import os

from harness.checks.c12 import chi2_sf, counting, cross_test, freq_test, serial_test

PROPERTY = "C29"
LEVEL = "exploration"
RULE = (
    "(1) Long runs of training datasets whose shard slices are recognisable in the stream, per worker, rank and seed: positions of "
    "slices, pairs of positions within and between the reshufflings, draws with replacement, interleaving of the open slices, and the "
    "order of different workers and at the beginning of many streams, by chi-square tests at 1e-12; the number of slices open at a time and unshuffled validation order, exactly. "
    "(2) The shuffle buffer over a counting dataset: age rank of each sample handed out among those in the buffer. (3) WorkerRng's "
    "functions. (4) Values drawn by user functions from torch, numpy and random, in real worker processes (not seeded per sample) and "
    "with restored seeds: none repeated between samples, workers, ranks, seed offsets. An evaluation is one stream; distinct by configuration."
)
ASSUMPTIONS = ["a deviation below about 7 standard deviations of a run is not recognised"]
P_MIN = 1e-12
Z_MAX = 7.5


def plan(tier):
    need = {"epochs": 8000, "slice_draws": 15000, "interleave_draws": 12000, "buffer_draws": 40000, "rng_calls": 80000,
            "worker_draws": 200, "seeded_draws": 20000, "val_streams": 15, "first_draws": 1200}
    if tier == "quick":
        return dict(n=162, shards=10, case_timeout=100, budget=200, min_evals=200, need_events=need)
    return dict(n=2700, shards=10, case_timeout=100, budget=560, min_evals=2500, need_events=need)


MODES = ["perm", "perm", "replace", "inter", "buffer", "buffer", "rng", "seeded", "val", "open", "workers", "seeded", "first"]


def gen(rng, idx, tier):
    m = MODES[idx % len(MODES)]
    W = rng.choice([0, 1, 2, 3])
    world = rng.choice([1, 1, 2, 4])
    c = dict(mode=m, W=W, world=world, seed=rng.randrange(1 << 20), k=rng.choice([2, 3, 3, 4, 5, 7]))
    if m == "perm":
        c.update(soe=rng.choice([1, 1, 2, 3]), pi=1, per=rng.choice([1, 1, 2]), one=rng.random() < 0.3)
    elif m == "replace":
        c.update(soe=-1, pi=1, sizes=[1] * c["k"] if rng.random() < 0.4 else [rng.choice([1, 2, 4]) for _ in range(c["k"])])
    elif m == "first":
        c.update(soe=rng.choice([1, 2, -1, -1]), pi=rng.choice([1, 1, 2, 4]), k=rng.choice([3, 4, 6]))
    elif m == "inter":
        c.update(soe=1, pi=rng.choice([c["k"], 16]), sizes=[rng.choice([1, 2, 3, 8, 20]) for _ in range(c["k"])])
    elif m == "open":
        c.update(soe=rng.choice([1, 2, -1]), pi=rng.choice([1, 2, 3, 4]), k=rng.choice([5, 7]), per=rng.choice([2, 5]))
    elif m == "buffer":
        c.update(size=rng.choice([2, 2, 3, 4, 8, 16]), tail=rng.random() < 0.3)
    elif m == "workers":
        c.update(W=rng.choice([1, 2, 3]), world=rng.choice([1, 2]), savable=rng.random() < 0.7, k=3)
    elif m == "val":
        c.update(per=rng.randint(1, 4), shuffle_train=False)
    return c


def run_case(case, rec):
    from harness.resume import reset_globals

    reset_globals()
    globals()["run_" + case["mode"]](case, rec)


def _wcfg(case, rank, off=0):
    from megatron.energon import WorkerConfig

    return WorkerConfig(rank=rank, world_size=case["world"], num_workers=case["W"], seed_offset=case["seed"] + off)


def _ds(case, rec, per_worker):
    """Shards such that each worker of each rank has whole ones: (path, {sample id: slice})."""
    from harness import dsgen

    n = case["world"] * max(case["W"], 1)
    shards = [s for _ in range(n) for s in per_worker]
    path, lay = dsgen.make_ds(rec.tmp, dict(name="d", shards=shards, kind="text"))
    of = {}
    for j, (_, ids) in enumerate(lay["train"]):
        for i in ids:
            of[i] = j
    return path, of, shards


def _train(path, wc, **kw):
    from megatron.energon import TaskEncoder, get_train_dataset

    class Te(TaskEncoder):
        pass

    return get_train_dataset(path, worker_config=wc, batch_size=None, task_encoder=Te(), **{"max_samples_per_sequence": None, **kw})


class _Stream:
    """Samples' ids of one emulated worker."""

    def __init__(self, ds, wc, wid, W):
        self.ds, self.wc, self.wid, self.W = ds, wc, wid, W
        self.it = None

    def take(self, n):
        from harness import emul

        out = []
        with emul.as_worker(self.wid, self.W):
            self.wc.worker_activate(0)
            try:
                if self.it is None:
                    self.it = iter(self.ds)
                for _ in range(n):
                    try:
                        out.append(int(next(self.it).text.split(":")[1]))
                    except StopIteration:
                        break
            finally:
                self.wc.worker_deactivate()
        return out


def pair_test(pairs, k, p_equal):
    """Pairs of slices at two given positions: chi-square over the k*k cells."""
    cells = {}
    for a, b in pairs:
        cells[a, b] = cells.get((a, b), 0) + 1
    n = len(pairs)
    pe, pd = p_equal / k, (1 - p_equal) / (k * (k - 1)) if k > 1 else 0
    if min(x for x in (pe, pd) if x > 0) * n < 8:
        return None
    x, df = 0.0, -1
    for a in range(k):
        for b in range(k):
            e = n * (pe if a == b else pd)
            o = cells.get((a, b), 0)
            if e == 0:
                if o:
                    return 0.0
                continue
            df += 1
            x += (o - e) ** 2 / e
    return chi2_sf(x, df) if df > 0 else None


def run_perm(case, rec):
    import random

    k, n = case["k"], case["soe"]
    per = 1 if case["one"] else case["per"]
    # `one`: one shard per worker, a slice per sample
    path, of, shards = _ds(case, rec, [k] if case["one"] else [per] * k)
    rec.arm()
    W = max(case["W"], 1)
    E = max(150, min(600, 24 * k * k)) // (2 if per > 1 else 1)
    if W * case["world"] > 3:
        E = max(150, E // 2)
    rng = random.Random(case["seed"])
    firsts = []
    for rank in range(min(case["world"], 2)):
        for wid in range(W):
            for off in (0, 1) if rank == 0 and wid == 0 else (0,):
                wc = _wcfg(case, rank, off)
                kw = dict(max_samples_per_sequence=1) if case["one"] else {}
                ds = _train(path, wc, shuffle_buffer_size=None, shuffle_over_epochs_multiplier=n, parallel_shard_iters=1, **kw)
                st = _Stream(ds, wc, wid, case["W"])
                ids = st.take(E * k * per * n)
                m = k * n  # slices per reshuffling
                if not rec.check(len(ids) == E * k * per * n, "stream_ended", f"training stream ended after {len(ids)} samples"):
                    return
                if case["one"]:
                    sl = list(ids)
                else:
                    runs = [ids[i:i + per] for i in range(0, len(ids), per)]
                    for r in runs:
                        if not rec.check(r == list(range(r[0], r[0] + per)) and r[0] % per == 0, "slice_order", lambda: f"samples {r} are not a shard slice in its order"):
                            return
                    sl = [of[r[0]] for r in runs]
                names = sorted(set(sl))
                if not rec.check(len(names) == k, "slices", lambda: f"{len(names)} slices for worker {wid} of rank {rank}, expected {k}"):
                    return
                sl = [names.index(x) for x in sl]
                ep = [sl[i:i + m] for i in range(0, len(sl), m)]
                rec.ev("epochs", len(ep))
                rec.evaluated(("perm", k, n, per, case["W"], case["world"], case["one"]))
                for e in ep:
                    if not rec.check(all(e.count(s) == n for s in range(k)), "not_a_permutation", lambda: f"reshuffled order {e} over {n} epochs"):
                        return
                peq = (n - 1) / (m - 1)

                def judge(pv, what):
                    if pv is not None:
                        rec.ev("order_tests")
                        rec.check(pv > P_MIN, "order", lambda: f"{what}: p={pv:.1e} (k={k}, over {n} epochs, worker {wid}, rank {rank}); orders {ep[:4]}")

                for pos in {0, m - 1, rng.randrange(m)}:
                    judge(freq_test([e[pos] for e in ep], [1 / k] * k), f"slice at position {pos} is not uniform")
                pos = {(0, 1), (0, m - 1), (m - 2, m - 1)} | {tuple(sorted(rng.sample(range(m), 2)))}
                for a, b in pos:
                    if a != b:
                        judge(pair_test([(e[a], e[b]) for e in ep], k, peq), f"slices at positions {a} and {b}")
                for a, b in {(0, 0), (m - 1, 0), (rng.randrange(m), rng.randrange(m))}:
                    judge(pair_test([(x[a], y[b]) for x, y in zip(ep, ep[1:])], k, 1 / k), f"slice at position {a} and at {b} of the next order")
                firsts.append(((rank, wid, off), ep))
    for i in range(len(firsts)):
        for j in range(i):
            for pos in (0, -1):
                pv = pair_test([(x[pos], y[pos]) for x, y in zip(firsts[i][1], firsts[j][1])], k, 1 / k)
                if pv is not None:
                    rec.ev("cross_tests")
                    rec.check(pv > P_MIN, "cross", lambda: f"orders of {firsts[i][0]} and {firsts[j][0]} (rank, worker, seed offset) are dependent: p={pv:.1e}; {firsts[i][1][:4]} {firsts[j][1][:4]}")


def run_replace(case, rec):
    k, sizes = case["k"], case["sizes"]
    path, of, shards = _ds(case, rec, sizes)
    start = [sum(shards[:j]) for j in range(len(shards))]
    rec.arm()
    W = max(case["W"], 1)
    N = 1500
    seqs = []
    for rank in range(min(case["world"], 2)):
        for wid in range(W):
            wc = _wcfg(case, rank)
            ds = _train(path, wc, shuffle_buffer_size=None, shuffle_over_epochs_multiplier=-1, parallel_shard_iters=1)
            ids = _Stream(ds, wc, wid, case["W"]).take(N * max(sizes))
            if not rec.check(len(ids) == N * max(sizes), "stream_ended", f"training stream ended after {len(ids)} samples"):
                return
            sl, at = [], 0
            while at < len(ids) and len(sl) < N:
                j = of[ids[at]]
                r = ids[at : at + shards[j]]
                at += shards[j]
                if at <= len(ids) and not rec.check(r == list(range(start[j], start[j] + shards[j])), "slice_order", lambda: f"samples {r} are not a shard slice in its order"):
                    return
                sl.append(j)
            names = sorted(set(sl))
            if not rec.check(len(names) == k, "slices", lambda: f"{len(names)} slices drawn for worker {wid} of rank {rank}, expected {k}"):
                return
            sl = [names.index(x) for x in sl]
            rec.ev("slice_draws", len(sl))
            rec.evaluated(("replace", k, tuple(sizes), case["W"], case["world"]))
            p = [1 / k] * k
            pv = freq_test(sl, p)
            rec.check(pv > P_MIN, "replace_frequency", lambda: f"draws with replacement: counts {[sl.count(i) for i in range(k)]}: p={pv:.1e}")
            for lag in (1, 2, k):
                pv = serial_test(sl, p, lag)
                rec.check(pv > P_MIN, "replace_serial", lambda: f"draws with replacement depend on the draw {lag} before: p={pv:.1e} {sl[:30]}")
            seqs.append(sl)
    for i in range(len(seqs)):
        for j in range(i):
            pv = cross_test(seqs[i], [1 / k] * k, seqs[j], [1 / k] * k)
            rec.check(pv > P_MIN, "cross", lambda: f"draws of two workers are dependent: p={pv:.1e}")


def run_first(case, rec):
    """The beginnings of many streams, each with its own seed: each slice equally likely at each position."""
    k, n, pi = case["k"], case["soe"], case["pi"]
    path, of, shards = _ds(case, rec, [1] * k)
    rec.arm()
    W = max(case["W"], 1)
    wid, rank = case["seed"] % W, case["seed"] // 7 % case["world"]
    runs, names, M = [], set(), 4
    for off in range(160):
        wc = _wcfg(case, rank, off)
        ds = _train(path, wc, shuffle_buffer_size=None, shuffle_over_epochs_multiplier=n, parallel_shard_iters=pi)
        ids = _Stream(ds, wc, wid, case["W"]).take(M)
        if not rec.check(len(ids) == M, "stream_ended", f"training stream ended after {len(ids)} samples"):
            return
        runs.append([of[i] for i in ids])
        names |= set(runs[-1])
    rec.ev("first_draws", len(runs))
    rec.evaluated(("first", k, n, pi, case["W"], case["world"]))
    names = sorted(names)
    where = lambda: f"beginnings of {len(runs)} streams with different seeds (shuffle_over_epochs={n}, parallel_shard_iters={pi}): {runs[:12]}"
    if not rec.check(len(names) == k, "slices", lambda: f"{len(names)} of {k} slices in the {where()}"):
        return
    for i in range(M):
        pv = freq_test([names.index(r[i]) for r in runs], [1 / k] * k)
        rec.check(pv > P_MIN, "first_frequency", lambda: f"slice at position {i} is not uniform: p={pv:.1e}; {where()}")
    for i in range(2 if pi == 1 else 0):
        # the same slice twice in a row
        p = 1 / k if n == -1 else (n - 1) / (k * n - 1)
        z = _Z()
        for r in runs:
            z.add(r[i] == r[i + 1], p)
        if n == -1 or k * n > i + 1:
            rec.check(abs(z.z()) < Z_MAX and (p > 0 or z.s == 0), "first_pair", lambda: f"positions {i} and {i + 1} are of the same slice {z.s + p * z.n:.0f} times of {z.n}, expected {p * z.n:.1f}; {where()}")


class _Z:
    """Sum of differences of events to their probabilities given the past."""

    def __init__(self):
        self.s = self.v = 0.0
        self.n = 0

    def add(self, hit, p):
        self.s += hit - p
        self.v += p * (1 - p)
        self.n += 1

    def z(self):
        return 0.0 if self.v < 30 else self.s / math.sqrt(self.v)


def run_inter(case, rec):
    """All slices of the worker are open: each next sample is of a slice with probability by its length."""
    k, sizes = case["k"], case["sizes"]
    world = case["world"] = case["W"] = 1
    path, of, shards = _ds(case, rec, sizes)
    rec.arm()
    wc = _wcfg(case, 0)
    ds = _train(path, wc, shuffle_buffer_size=None, parallel_shard_iters=case["pi"])
    tot = sum(sizes)
    E = max(30, 2500 // tot)
    ids = _Stream(ds, wc, 0, case["W"]).take(E * tot)
    if not rec.check(len(ids) == E * tot, "stream_ended", f"training stream ended after {len(ids)} samples"):
        return
    # Slices may be parts of shards (even split is over samples): here one worker, so whole shards
    per_slice = [_Z() for _ in sizes]
    same, first = _Z(), [0] * k
    for e in range(E):
        left = list(sizes)
        prev = None
        for i in ids[e * tot:(e + 1) * tot]:
            s = of[i]
            tw = sum(sizes[j] for j in range(k) if left[j])
            ps = [sizes[j] / tw if left[j] else 0 for j in range(k)]
            for j in range(k):
                if 0 < ps[j] < 1:
                    per_slice[j].add(s == j, ps[j])
            if prev is not None and 0 < ps[prev] < 1:
                same.add(s == prev, ps[prev])
            if not rec.check(left[s] > 0, "interleave_repeat", lambda: f"shard {s} came more often in epoch {e} than it has samples"):
                return
            left[s] -= 1
            prev = s
    rec.ev("interleave_draws", len(ids))
    rec.evaluated(("inter", tuple(sizes), case["pi"]))
    for j, z in enumerate(per_slice):
        rec.check(abs(z.z()) < Z_MAX, "interleave", lambda: f"slices of lengths {sizes} all open: slice {j} drawn {z.s:+.0f} times off the expectation in {z.n} draws (z={z.z():.1f})")
    rec.check(abs(same.z()) < Z_MAX, "interleave_same", lambda: f"slices of lengths {sizes} all open: the same slice again {same.s:+.0f} times off the expectation (z={same.z():.1f})")


def run_open(case, rec):
    """Never more than parallel_shard_iters slices open, and all of them used; within a slice in order."""
    k, per, P = case["k"], case["per"], case["pi"]
    case["world"] = case["W"] = 1
    path, of, shards = _ds(case, rec, [per] * k)
    rec.arm()
    wc = _wcfg(case, 0)
    ds = _train(path, wc, shuffle_buffer_size=None, parallel_shard_iters=P, shuffle_over_epochs_multiplier=case["soe"])
    ids = _Stream(ds, wc, 0, case["W"]).take(60 * k * per)
    open_, most = [], 0  # [shard, next sample]: a slice may be open twice
    for i in ids:
        s = of[i]
        off = i - s * per
        for o in open_:
            if o == (s, off):
                open_.remove(o)
                break
        else:
            if not rec.check(off == 0, "slice_order", lambda: f"sample {off} of shard {s} without the ones before"):
                return
        if off + 1 < per:
            open_.append((s, off + 1))
        most = max(most, len(open_))
        if not rec.check(len(open_) <= P, "too_many_open", lambda: f"{len(open_)} slices open with parallel_shard_iters={P}"):
            return
    rec.evaluated(("open", k, per, P, case["soe"]))
    rec.ev("open_streams")
    rec.check(most == P, "not_interleaved", lambda: f"at most {most} slices were open with parallel_shard_iters={P}")


def run_buffer(case, rec):
    from megatron.energon.wrappers import ShuffleBufferDataset

    from harness import emul

    n, W = case["size"], max(case["W"], 1)
    rec.arm()
    N = 2500
    seqs = []
    for rank in range(min(case["world"], 2)):
        for wid in range(W):
            wc = _wcfg(case, rank)
            ln = (n + 3) if case["tail"] else N + n
            ds = ShuffleBufferDataset(counting(0, ln, [], wc), size=n, worker_config=wc)
            ranks, z = [], {m: [_Z() for _ in range(m)] for m in range(2, n + 1)}
            with emul.as_worker(wid, case["W"]):
                wc.worker_activate(0)
                try:
                    for rep in range(N // ln if case["tail"] else 1):
                        buf, src = [], 0
                        got = 0
                        for x in ds:
                            while len(buf) < n and src < ln:
                                buf.append(src)
                                src += 1
                            j = x.text[1]
                            if not rec.check(j in buf, "buffer_range", lambda: f"output {got} of a shuffle buffer of {n} is source sample {j}, buffer {buf}"):
                                return
                            r = buf.index(j)
                            if len(buf) == n:
                                ranks.append(r)
                            if len(buf) > 1:
                                for q in range(len(buf)):
                                    z[len(buf)][q].add(q == r, 1 / len(buf))
                            del buf[r]
                            got += 1
                            if not case["tail"] and got == N:
                                break
                        if case["tail"] and not rec.check(got == ln, "buffer_lost", lambda: f"{got} of {ln} samples from a shuffle buffer"):
                            return
                finally:
                    wc.worker_deactivate()
            rec.ev("buffer_draws", len(ranks))
            rec.evaluated(("buffer", n, case["tail"], case["W"], case["world"]))
            p = [1 / n] * n
            pv = freq_test(ranks, p)
            rec.check(pv > P_MIN, "buffer_frequency", lambda: f"shuffle buffer of {n}: ages of the drawn samples {[ranks.count(i) for i in range(n)]}: p={pv:.1e}")
            for lag in (1, 2, n):
                pv = serial_test(ranks, p, lag)
                rec.check(pv > P_MIN, "buffer_serial", lambda: f"shuffle buffer of {n}: draws depend on the draw {lag} before: p={pv:.1e}")
            for m, zs in z.items():
                for q, s in enumerate(zs):
                    rec.check(abs(s.z()) < Z_MAX, "buffer_tail", lambda: f"shuffle buffer of {n} with {m} left: the {q}-oldest is drawn {s.s:+.0f} times off the expectation (z={s.z():.1f})")
            seqs.append(ranks)
    if not case["tail"]:
        for i in range(len(seqs)):
            for j in range(i):
                pv = cross_test(seqs[i], [1 / n] * n, seqs[j], [1 / n] * n)
                rec.check(pv > P_MIN, "cross", lambda: f"shuffle buffers of two workers are dependent: p={pv:.1e}")


def run_rng(case, rec):
    import itertools
    import random

    import torch

    from megatron.energon.rng import WorkerRng

    from harness import emul

    rec.arm()
    r = random.Random(case["seed"])
    k = r.choice([2, 3, 4])
    pr = [r.choice([0, 1, 1, 2, 0.1, 10]) for _ in range(r.randint(2, 6))]
    pr[0] = pr[0] or 1
    probs = torch.tensor(pr, dtype=torch.float32)
    p = [x / sum(pr) for x in pr]
    perms = {q: i for i, q in enumerate(itertools.permutations(range(k)))}
    N = 1200
    streams = []
    for rank, wid, off in [(0, 0, 0), (0, 0, 1)] + [(x, 0, 0) for x in range(1, min(case["world"], 2))] + [(0, w, 0) for w in range(1, case["W"])]:
        wc = _wcfg(case, rank, off)
        g = WorkerRng(wc)
        with emul.as_worker(wid, case["W"]):
            wc.worker_activate(0)
            try:
                a = [g.randbelow(k + 3) for _ in range(N)]
                b = [g.choice_idx(probs) for _ in range(N)]
                c = [perms[tuple(g.shuffle(list(range(k))))] for _ in range(N)]
                d, e, f = [], [], []
                for _ in range(N):
                    l = list(range(k + 9))
                    d.append(g.rand_pop(l))
                    if not rec.check(sorted(l + d[-1:]) == list(range(k + 9)), "rand_pop", f"rand_pop left {l} and returned {d[-1]}"):
                        return
                    e.append(g.choice(list(range(k))))
                    f.append(g.choice(list(range(len(p))), probs=probs))
            finally:
                wc.worker_deactivate()
        rec.ev("rng_calls", 6 * N)
        rec.evaluated(("rng", case["seed"], rank, wid, off))
        for what, s, q in (("randbelow", a, [1 / (k + 3)] * (k + 3)), ("choice_idx", b, p), ("shuffle", c, [1 / len(perms)] * len(perms)),
                           ("rand_pop", d, [1 / (k + 9)] * (k + 9)), ("choice", e, [1 / k] * k), ("choice with probs", f, p)):
            bad = [x for x in set(s) if not (isinstance(x, int) and 0 <= x < len(q) and q[x] > 0)]
            if not rec.check(not bad, "rng_range", lambda: f"WorkerRng.{what} returned {bad}, probabilities {q}"):
                return
            pv = freq_test(s, q)
            rec.check(pv > P_MIN, "rng_frequency", lambda: f"WorkerRng.{what}: counts {[s.count(i) for i in range(len(q))]}, probabilities {q}: p={pv:.1e}")
            pv = serial_test(s, q, 1)
            rec.check(pv > P_MIN, "rng_serial", lambda: f"WorkerRng.{what}: calls depend on the previous call: p={pv:.1e}")
        streams.append(((rank, wid, off), a))
    for i in range(len(streams)):
        for j in range(i):
            q = [1 / (k + 3)] * (k + 3)
            pv = cross_test(streams[i][1], q, streams[j][1], q)
            rec.check(pv > P_MIN, "cross", lambda: f"WorkerRng of {streams[i][0]} and {streams[j][0]} (rank, worker, seed offset): p={pv:.1e}")


def run_val(case, rec):
    """Validation order: the slices of each worker in their order."""
    from megatron.energon import TaskEncoder, get_val_dataset

    path, of, shards = _ds(case, rec, [case["per"]] * case["k"])
    rec.arm()
    W = max(case["W"], 1)

    class Te(TaskEncoder):
        pass

    for rank in range(case["world"]):
        for wid in range(W):
            wc = _wcfg(case, rank)
            ds = get_val_dataset(path, split_part="train", worker_config=wc, batch_size=None, task_encoder=Te())
            st = _Stream(ds, wc, wid, case["W"])
            for ep in range(2):
                st.it = None
                ids = st.take(1000)
                rec.ev("val_streams")
                rec.evaluated(("val", case["k"], case["per"], case["W"], case["world"]))
                rec.check(ids == sorted(ids) and len(ids) == case["k"] * case["per"], "val_order", lambda: f"validation order of worker {wid} of rank {rank}: {ids[:40]}")


def _draw():
    import random

    import numpy as np
    import torch

    return (int(torch.randint(0, 1 << 62, ()).item()), int(np.random.randint(0, 1 << 62)), random.getrandbits(62))


def _report(rec, seen, allowed, mech, where):
    """seen: list of (who, (torch, numpy, random)); values repeated between any two."""
    for lib, nm in enumerate(("torch", "numpy", "random")):
        at, rep = {}, []
        for who, v in seen:
            if v[lib] in at:
                rep.append((at[v[lib]], who))
            else:
                at[v[lib]] = who
        rec.check(len(rep) <= allowed, mech, lambda: f"{where}: the same {nm} value was drawn {len(rep)} times, e.g. by {rep[:3]} of {len(seen)} draws")


def run_workers(case, rec):
    """Unseeded user functions in real worker processes."""
    from megatron.energon import TaskEncoder, get_loader, get_savable_loader

    path, of, shards = _ds(case, rec, [4] * case["k"])
    rec.arm()

    class Te(TaskEncoder):
        def encode_sample(self, sample):
            sample.text = repr(_draw())
            return sample

    from megatron.energon import get_train_dataset

    seen = []
    n = 0
    for rank in range(case["world"]):
        for off in (0, 1):
            wc = _wcfg(case, rank, off)
            ds = get_train_dataset(path, worker_config=wc, batch_size=None, task_encoder=Te(), shuffle_buffer_size=None, max_samples_per_sequence=None)
            ld = (get_savable_loader if case["savable"] else get_loader)(ds)
            it = iter(ld)
            for i in range(8 * case["W"]):
                seen.append(((rank, off, i % case["W"], i // case["W"]), eval(next(it).text)))
                n += 1
            from harness.resume import close_loader

            close_loader(ld)
            del it, ld
    rec.ev("worker_draws", n)
    rec.evaluated(("workers", case["W"], case["world"], case["savable"]))
    _report(rec, seen, 0, "worker_repeat", f"functions in {case['W']} worker processes of {case['world']} ranks ((rank, seed offset, worker, sample))")


def run_seeded(case, rec):
    """Functions with restored seeds: other values for each sample, worker, rank and seed offset."""
    from megatron.energon import TaskEncoder, get_train_dataset, stateless

    from harness import emul

    path, of, shards = _ds(case, rec, [3] * case["k"])
    rec.arm()
    gen = case["seed"] % 2
    box = {}

    class Te(TaskEncoder):
        if gen:

            @stateless(restore_seeds=True)
            def encode_sample(self, sample):
                box.setdefault("encode", []).append(_draw())
                yield sample
                box["encode"].append(_draw())
        else:

            @stateless(restore_seeds=True)
            def encode_sample(self, sample):
                box.setdefault("encode", []).append(_draw())
                return sample

        @stateless(restore_seeds=True)
        def batch(self, samples):
            box.setdefault("batch", []).append(_draw())
            return samples[0]

        @stateless(restore_seeds=True)
        def encode_batch(self, batch):
            box.setdefault("encode_batch", []).append(_draw())
            return batch

    N = 80
    all_ = {}
    for rank in range(min(case["world"], 3)):
        for wid in range(max(case["W"], 1)):
            for off in (0, 1):
                wc = _wcfg(case, rank, off)
                ds = get_train_dataset(path, worker_config=wc, batch_size=2, task_encoder=Te(), shuffle_buffer_size=None, max_samples_per_sequence=None)
                e = emul.EmuWorker(ds, wc, wid)
                box.clear()
                e.take(N)
                e.close()
                for f, v in box.items():
                    all_.setdefault(f, []).extend(((rank, wid, off, i), x) for i, x in enumerate(v))
    for f, seen in all_.items():
        rec.ev("seeded_draws", len(seen))
        rec.evaluated(("seeded", f, gen, case["W"], case["world"]))
        _report(rec, seen, 3, "seeded_repeat", f"{f} with restored seeds ((rank, worker, seed offset, call))")
