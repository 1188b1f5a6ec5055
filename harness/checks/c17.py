"""C17: seed-restoring functions are reproducible and do not disturb global randomness."""
import os
import random

import numpy as np
import torch

from harness import dsgen, emul
from harness.fp import short

PROPERTY = "C17"
LEVEL = "exploration"
RULE = (
    "Random programs interleave draws from the global generators (torch, numpy, random; also half-used normal pairs) with "
    "calls of task encoder functions marked @stateless(restore_seeds=True): plain, raising, skipping, nested, and "
    "generators consumed in pieces, interleaved with each other, finished, failing or abandoned, in several worker topologies. "
    "Shadow generators that only perform the outside draws predict each of them; the values drawn inside are recorded per "
    "(worker seed, sample index, function position) and must be the same in every call. The same is checked on whole "
    "pipelines run with different amounts of noise drawn around the seeded functions. An evaluation is one call or one "
    "outside draw; distinct by program."
)
ASSUMPTIONS = ["randomness inside the function comes from the three global generators"]


def plan(tier):
    need = {"outer_draws": 10000, "calls": 5000, "repeats_equal": 1200, "generators": 800, "abandoned": 150, "raised": 300, "skipped": 200,
            "nested": 200, "interleaved": 300, "topologies_equal": 30, "pipeline_draws": 1500, "distinct_seeds": 200}
    if tier == "quick":
        return dict(n=500, shards=8, case_timeout=60, budget=120, min_evals=10000, need_events=need)
    return dict(n=12000, shards=8, case_timeout=60, budget=500, min_evals=200000, need_events=need)


def gen(rng, idx, tier):
    return dict(kind="pipe" if idx % 5 == 4 else "direct", seed=rng.randrange(1 << 40))


KINDS = ["t_rand", "t_randn", "t_int", "t_perm", "n_rand", "n_normal", "n_int", "r_rand", "r_gauss", "r_int", "r_shuffle"]


def draw(kind, t=None, n=None, r=None):
    """One draw from the global generators, or from the given ones."""
    n = np.random if n is None else n
    r = random if r is None else r
    if kind == "t_rand":
        return torch.rand(3, generator=t).tolist()
    if kind == "t_randn":
        return torch.randn(1, generator=t).tolist()
    if kind == "t_int":
        return int(torch.randint(0, 1 << 40, (), generator=t))
    if kind == "t_perm":
        return torch.randperm(5, generator=t).tolist()
    if kind == "n_rand":
        return float(n.random_sample() if hasattr(n, "random_sample") else n.rand())
    if kind == "n_normal":
        return float(n.normal())
    if kind == "n_int":
        return int(n.randint(0, 1 << 30))
    if kind == "r_rand":
        return r.random()
    if kind == "r_gauss":
        return r.gauss(0, 1)
    if kind == "r_int":
        return r.randrange(1 << 70)
    l = list(range(6))
    r.shuffle(l)
    return l


class Fail(Exception):
    pass


def make_te(log):
    from megatron.energon import SkipSample, TaskEncoder, stateless

    class TE(TaskEncoder):
        @stateless(restore_seeds=True)
        def plain(self, prog, how="ok"):
            res = [draw(k) for k in prog[:-1]]
            if how == "nested":
                res.append(("nested", self.other([prog[0], prog[-1]])))
            res.append(draw(prog[-1]))
            log.append(res)
            if how == "raise":
                raise Fail("user")
            if how == "skip":
                raise SkipSample()
            return res

        @stateless(restore_seeds=True)
        def other(self, prog):
            res = [draw(k) for k in prog]
            log.append(res)
            return res

        @stateless(restore_seeds=True)
        def gen(self, prog, how="ok"):
            for i, k in enumerate(prog):
                if how == "raise" and i == len(prog) - 1:
                    raise Fail("user")
                v = [draw(k)]
                if how == "nested":
                    v.append(self.other([k]))
                yield v
            if how == "tail":
                draw("t_randn"), draw("n_normal"), draw("r_gauss")

        @stateless
        def unseeded(self, prog):
            return [draw(k) for k in prog]

    return TE()


def run_case(case, rec):
    (run_pipe if case["kind"] == "pipe" else run_direct)(case, rec)


# ---- direct programs -------------------------------------------------------------------------------------------------


def run_direct(case, rec):
    from megatron.energon import SkipSample, WorkerConfig

    rng = random.Random(case["seed"])
    log = []
    te = make_te(log)
    progs = [[rng.choice(KINDS) for _ in range(rng.randint(1, 6))] for _ in range(3)]
    off = rng.randint(0, 5)
    # the same global worker in two topologies
    world, W, gw = rng.choice([(2, 2, 3), (2, 1, 1), (4, 1, 2), (1, 3, 2), (1, 4, 1), (1, 0, 0), (3, 0, 1), (1, 1, 0)])
    tops = [(world, W)] + [(b, a) for a, b in [(max(W, 1), world), (world * max(W, 1), 1), (1, world * max(W, 1))] if a]
    table = {}  # (sample index, call) -> values drawn inside
    start = [rng.randrange(1 << 30) for _ in range(len(tops))]
    # the worker's own count of samples: the sample index without regard to the number of workers of its rank
    pool = sorted(rng.sample(range(20), 3))
    for (world, W), st in zip(tops, start):
        wc = WorkerConfig(rank=gw // max(W, 1), world_size=world, num_workers=W, seed_offset=off)
        with emul.as_worker(gw % max(W, 1), W):
            wid = gw % max(W, 1)
            seen = {}
            run_program(rng, rec, te, log, progs, wc, st, seen, max(W, 1), wid, pool, case)
            if rec.violations:
                return
            for k, v in seen.items():
                if k in table:
                    rec.ev("topologies_equal")
                    if table[k] != v:
                        rec.violation("seed_topology", f"global worker {gw}, its sample {k[0]}, {k[1:]}: draws {short(v)} for topology {(world, W)}, {short(table[k])} for another one")
                        return
                table[k] = v
    # Not all the same
    by = {}
    for (i, name, p, how, *_), v in table.items():
        if name == "plain" and how == "ok":
            by.setdefault(p, {})[i] = str(v)
    for p, d in by.items():
        if len(d) > 1 and len(progs[p]) > 1:
            rec.ev("distinct_seeds")
            if len(set(d.values())) < len(d):
                rec.violation("constant_seed", f"program {progs[p]}: the same values for different sample indexes: {short(d)}")


def run_program(rng, rec, te, log, progs, wc, start, seen, W, wid, pool, case):
    from megatron.energon import SkipSample

    torch.manual_seed(start)
    np.random.seed(start)
    random.seed(start)
    t, n, r = torch.Generator(), np.random.RandomState(start), random.Random(start)
    t.manual_seed(start)
    hist = []
    live = []  # [generator, key, program, values so far]

    def outer(k=None):
        k = k or rng.choice(KINDS)
        got, want = draw(k), draw(k, t, n, r)
        rec.evaluated((case["seed"], len(hist), k))
        rec.ev("outer_draws")
        if got != want:
            rec.violation("disturbed", f"the global {k} draws {short(got)} instead of {short(want)} after {hist[-6:]}")
            return False
        return True

    def inner(key, values):
        rec.evaluated((case["seed"], len(hist), key))
        rec.ev("calls")
        if key in seen:
            rec.ev("repeats_equal")
            if seen[key] != values:
                rec.violation("not_reproducible", f"(sample index, function, program, how) = {key}: draws {short(values)}, before {short(seen[key])}; after {hist[-6:]}")
                return False
        seen[key] = values
        return True

    def active(i):
        wc.worker_activate(0)
        try:
            wc.worker_push_sample_index(i)
            assert te.current_sample_index == i * W + wid
        except BaseException:
            wc.worker_deactivate()
            raise

    def done():
        wc.worker_pop_sample_index()
        wc.worker_deactivate()

    for _ in range(rng.randint(20, 60)):
        op = rng.choice(["outer", "outer", "plain", "plain", "gen", "next", "next", "drop", "unseeded"])
        hist.append(op)
        if op == "outer":
            if not outer():
                return
        elif op == "unseeded":
            k = rng.choice(KINDS)
            active(rng.choice(pool))
            got = te.unseeded([k])[0]
            done()
            if got != draw(k, t, n, r):
                rec.violation("disturbed", f"a function without restored seeds draws something else after {hist[-6:]}")
                return
        elif op == "plain":
            i, p = rng.choice(pool), rng.randrange(3)
            how = rng.choice(["ok", "ok", "raise", "skip", "nested"])
            hist[-1] = ("plain", i, p, how)
            active(i)
            log.clear()
            try:
                te.plain(progs[p], how)
            except Fail:
                rec.ev("raised")
            except SkipSample:
                rec.ev("skipped")
            finally:
                done()
            if how == "nested":
                rec.ev("nested")
            if not inner((i, "plain", p, how), list(map(list, log))) or not outer(rng.choice(KINDS)):
                return
        elif op == "gen":
            i, p, how = rng.choice(pool), rng.randrange(3), rng.choice(["ok", "raise", "tail", "nested"])
            hist[-1] = ("gen", i, p, how)
            live.append([te.gen(progs[p], how), (i, "gen", p, how), progs[p], []])
            rec.ev("generators")
        elif op == "next" and live:
            if len(live) > 1:
                rec.ev("interleaved")
            g = rng.choice(live)
            hist[-1] = ("next", g[1])
            log.clear()
            active(g[1][0])
            try:
                g[3].append(next(g[0]))
                fin = False
            except StopIteration:
                fin = True
            except Fail:
                rec.ev("raised")
                fin = True
            finally:
                done()
            if fin:
                live.remove(g)
            # values so far
            if not inner(g[1] + (len(g[3]), fin), list(g[3])) or not outer(rng.choice(KINDS)):
                return
        elif op == "drop" and live:
            rec.ev("abandoned")
            g = live.pop(rng.randrange(len(live)))
            if rng.random() < 0.5:
                g[0].close()
            del g
            if not outer(rng.choice(KINDS)):
                return
    for k in ("t_randn", "n_normal", "r_gauss", "t_rand", "n_rand", "r_rand"):
        if not outer(k):
            return


# ---- pipelines -------------------------------------------------------------------------------------------------------


def run_pipe(case, rec):
    rng = random.Random(case["seed"])
    W = rng.choice([0, 1, 2])
    world = rng.choice([1, 1, 2])
    spec = dsgen.rand_ds_spec(rng, "d0", min_total=max(W, 1) * world)
    spec["splits"] = {"train": list(range(len(spec["shards"])))}
    dsgen.make_ds(rec.tmp, spec)
    path = os.path.join(rec.tmp, "d0")
    cfg = dict(
        gen=rng.random() < 0.5, skip=rng.choice([0, 4]), err=rng.choice([0, 5]), pack=rng.choice([None, None, 3]), bs=rng.choice([1, 2, 3]),
        shuffle=rng.choice([None, 4]), psi=rng.choice([1, 2]), off=rng.randint(0, 3),
    )
    n = rng.randint(8, 25)
    runs = []
    for variant in range(2):
        noise = random.Random(case["seed"] + variant)
        table = {}
        for g in range(max(W, 1) * world):
            run_worker(path, cfg, W, world, g, n, noise, variant, table)
        runs.append(table)
    a, b = runs
    for k in a.keys() | b.keys():
        rec.evaluated((case["seed"], k))
        rec.ev("pipeline_draws")
        if a.get(k) != b.get(k):
            rec.violation("pipeline", f"{cfg} W={W} world={world}: (stage, global worker, sample index, call) = {k}: {short(a.get(k))} without, {short(b.get(k))} with noise drawn around")
            return
    vals = [str(v) for v in a.values()]
    rec.ev("distinct_values", len(set(vals)))


def run_worker(path, cfg, W, world, g, n, noise, variant, table):
    from megatron.energon import SkipSample, TaskEncoder, WorkerConfig, get_train_dataset, stateless

    wc = WorkerConfig(rank=g // max(W, 1), world_size=world, num_workers=W, seed_offset=cfg["off"])
    count = {}

    def jitter():
        if variant:
            for _ in range(noise.randint(0, 3)):
                draw(noise.choice(KINDS))

    def rec_draw(stage, te):
        idx = te.current_sample_index
        c = count[stage, idx] = count.get((stage, idx), 0) + 1
        v = [draw(k) for k in ("t_randn", "n_normal", "r_gauss", "r_int")]
        table[stage, g, idx, c] = v
        return v

    class Base(TaskEncoder):
        @stateless
        def batch(self, samples):
            jitter()
            return samples

        @stateless(restore_seeds=True)
        def encode_batch(self, b):
            rec_draw("encode_batch", self)
            return b

    class Plain(Base):
        @stateless(restore_seeds=True)
        def encode_sample(self, s):
            v = rec_draw("encode", self)
            if cfg["skip"] and v[3] % cfg["skip"] == 0:
                raise SkipSample()
            if cfg["err"] and v[3] % cfg["err"] == 1:
                raise ValueError("user")
            return s

    class Gen(Base):
        @stateless(restore_seeds=True)
        def encode_sample(self, s):
            for _ in range(3):
                v = rec_draw("encode", self)
                if cfg["err"] and v[3] % cfg["err"] == 1:
                    raise ValueError("user")
                yield s

    cls = Gen if cfg["gen"] else Plain
    kw = {}
    if cfg["pack"]:
        kw["packing_buffer_size"] = cfg["pack"]

        def select(self, samples):
            jitter()
            return [samples[i : i + 2] for i in range(0, len(samples), 2)]

        @stateless(restore_seeds=True)
        def pack(self, samples):
            rec_draw("pack", self)
            return samples[0]

        cls = type("P", (cls,), dict(select_samples_to_pack=select, pack_selected_samples=pack))
    ds = get_train_dataset(
        path, split_part="train", worker_config=wc, batch_size=cfg["bs"], shuffle_buffer_size=cfg["shuffle"], max_samples_per_sequence=None,
        parallel_shard_iters=cfg["psi"], task_encoder=cls(), handler=lambda e, s: None, **kw,
    )
    drv = emul.EmuWorker(ds, wc, g % max(W, 1))
    for _ in range(n):
        drv.next()
        if variant:
            cur = emul.SystemRng.save_state()
            emul.SystemRng.restore_state(drv.sysrng)
            jitter()
            drv.sysrng = emul.SystemRng.save_state()
            emul.SystemRng.restore_state(cur)
    drv.close()
