"""C07: restore_sample(restore_key) reproduces exactly the sample that was yielded."""
import dataclasses
import pickle
import random

from harness import emul, pipes
from harness.fp import diff_path
from harness.resume import END, Pipe, close_loader, emu_streams, first_diff, fp, gen_any, reset_globals, short

PROPERTY = "C07"
LEVEL = "exploration"
RULE = (
    "Random wrapper compositions and TaskEncoder pipelines that report can_restore_sample(); every yielded sample is "
    "restored by its restore key, in shuffled order, some repeatedly, from a fresh loader, from a loader that already "
    "iterates, and from one with a restored state, with unrelated random draws in between. An evaluation is one restored "
    "sample compared (content, nested draws, indexes, restore key) with the yielded one; distinct by pipeline "
    "structure, driver, number of workers."
)
ASSUMPTIONS = [
    "user functions are deterministic given the indexes they see and, where marked with restored seeds, their draws",
    "the batch index is only compared for functions that are not re-run from a buffer",
]


def plan(tier):
    need = {"restored": 2500, "restored_running": 200, "restored_in_loader_with_workers": 150, "te_pipeline": 40, "pure_stream": 30,
            "op:pack": 15, "op:group": 15, "op:shuffle": 15, "op:batch": 30, "op:concat": 8, "op:blend": 15}
    if tier == "quick":
        return dict(n=450, shards=10, case_timeout=60, budget=150, min_evals=2500, need_events=need)
    return dict(n=4500, shards=10, case_timeout=90, budget=560, min_evals=20000, need_events=need)


def gen(rng, idx, tier):
    mode = ("emu", "emu", "emu", "real")[idx % 4]
    W = None if mode == "emu" else rng.choice([0, 1, 2, 3])
    spec = None
    for _ in range(30):
        spec = gen_any(rng, W=W, te_share=0.4, allow_free=False)
        if spec.get("kind") == "te" or spec["node"]["rest"]:
            break
    return dict(mode=mode, spec=spec, seed=rng.randrange(1 << 30))


def run_case(case, rec):
    reset_globals()
    rng = random.Random(case["seed"])
    pipe = Pipe(case["spec"], rec.tmp)
    try:
        if not pipe.mk().can_restore_sample():
            rec.ev("not_restorable")
            return
        if pipe.te:
            rec.ev("te_pipeline")
            te = case["spec"]["te"]
            ops = [n for n, v in (("pack", te["pack"]), ("group", te["group"]), ("batch", te["batch"]), ("map", te["enc"])) if v]
            if (case["spec"]["kw"].get("shuffle_buffer_size") or 0) > 1:
                ops.append("shuffle")
        else:
            ops = [n["t"] for n in pipes.walk(case["spec"]["node"])]
        for op in ops:
            rec.ev("op:" + op)
        (emu_case if case["mode"] == "emu" else real_case)(rec, rng, pipe)
    except pipes.Spin:
        rec.ev("degenerate_skipped")
    finally:
        reset_globals()
    rec.sample = dict(pipeline=pipe.shape(), W=pipe.W, driver=case["mode"])


def noise(rng):
    """Foreign random draws between the restores."""
    for _ in range(rng.randrange(3)):
        pipes.draws()


def compare(rec, pipe, mode, key, want, got, what):
    rec.ev("restored")
    rec.evaluated(f"{mode}:{pipe.W}:{pipe.shape()}:{what}")
    if fp(got) != fp(want):
        rec.violation("restore", f"[{mode}] {what}: key {short(key)}; pipeline {pipe.shape()} W={pipe.W}\n{diff_path(fp(want), fp(got))}")
        return False
    return True


def emu_case(rec, rng, pipe):
    w = pipe.wcfg()
    N = 16
    out = []
    prefix = "SavableDatasetWrapper" if pipe.W else "SimpleSavableDatasetWrapper"
    runs = []
    for k in range(pipe.nw):
        e = emul.EmuWorker(pipe.mk(w), w, k)
        gw = w.rank * pipe.nw + k
        for _ in range(N):
            i = e.index
            x = e.next()
            if x != END:
                x = pickle.loads(pickle.dumps(x))
                out.append(dataclasses.replace(x, __restore_key__=(prefix, gw, i) + tuple(x.__restore_key__)))
        runs.append(e)
    if not out:
        return
    keys = [fp(x.__restore_key__) for x in out]
    rec.check(len(set(keys)) == len(keys), "key-reused", lambda: f"two samples with the same restore key {short(next(k for k in keys if keys.count(k) > 1))}; pipeline {pipe.shape()} W={pipe.W}")
    rec.arm()
    ld = pipe.loader(wcfg=w)
    order = list(out)
    rng.shuffle(order)
    for x in order + rng.sample(order, min(4, len(order))):
        noise(rng)
        if not compare(rec, pipe, "emu", x.__restore_key__, x, ld.restore_sample(x.__restore_key__), "fresh loader"):
            return
    # The dataset instance that iterates restores, and goes on as if nothing had happened
    w2 = pipe.wcfg()
    k = rng.randrange(pipe.nw)
    gw = w2.rank * pipe.nw + k
    ref = [fp(x) for x in emul.EmuWorker(pipe.mk(w2), w2, k).take(N)]
    ds = pipe.mk(w2)
    e = emul.EmuWorker(ds, w2, k)
    got = []
    mine = [x for x in out if x.__restore_key__[1] == gw]
    for _ in range(N):
        if mine and rng.random() < 0.5:
            x = rng.choice(mine)
            key = x.__restore_key__
            with e.ctx():
                w2.worker_activate(key[2], override_global_rank=key[1])
                try:
                    y = ds.restore_sample(key[3:])
                finally:
                    w2.worker_deactivate()
            rec.ev("restored_running")
            if not compare(rec, pipe, "emu", key, dataclasses.replace(x, __restore_key__=key[3:]), y, "iterating dataset"):
                return
        got.append(fp(e.next()))
    rec.ev("pure_stream")
    rec.evaluated(f"pure:{pipe.shape()}:{pipe.W}")
    j = first_diff(got, ref)
    rec.check(got == ref, "stream-disturbed", lambda: f"restoring samples changed the running stream at token {j}; {pipe.shape()} W={pipe.W}\nwith    {short(got[j])}\nwithout {short(ref[j])}")


def real_case(rec, rng, pipe):
    emu_streams(pipe, 12)  # degenerate?
    rec.arm()
    N = 14
    ref_ld = pipe.loader()
    out = [x for x in pipes.Stream(ref_ld).take(N)]
    close_loader(ref_ld)
    out = [pickle.loads(pickle.dumps(x)) for x in out]
    real = [x for x in out if x != END]
    ld = pipe.loader({"checkpoint_every_sec": 0})
    for x in rng.sample(real, len(real)):
        noise(rng)
        if not compare(rec, pipe, "real", x.__restore_key__, x, ld.restore_sample(x.__restore_key__), "fresh loader"):
            return
        if pipe.W:
            rec.ev("restored_in_loader_with_workers")
    # now iterate the same loader, restoring samples in between
    s = pipes.Stream(ld)
    got = []
    for _ in range(N):
        if real and rng.random() < 0.5:
            x = rng.choice(real)
            rec.ev("restored_running")
            if not compare(rec, pipe, "real", x.__restore_key__, x, ld.restore_sample(x.__restore_key__), "iterating loader"):
                return
        got.append(fp(s.next()))
    ref = [fp(x) for x in out]
    rec.ev("pure_stream")
    rec.evaluated(f"pure:{pipe.shape()}:{pipe.W}")
    j = first_diff(got, ref)
    rec.check(got == ref, "stream-disturbed", lambda: f"restoring samples changed the running loader at token {j}; {pipe.shape()} W={pipe.W}\nwith    {short(got[j])}\nwithout {short(ref[j])}")
    st = ld.save_state_rank()
    close_loader(ld)
    ld2 = pipe.loader()
    ld2.restore_state_rank(st)
    if real:
        for x in rng.sample(real, min(3, len(real))):
            if not compare(rec, pipe, "real", x.__restore_key__, x, ld2.restore_sample(x.__restore_key__), "loader with restored state"):
                return
        for x in s_after(ld2, 3):
            if x != END:
                compare(rec, pipe, "real", x.__restore_key__, x, pipe.loader().restore_sample(x.__restore_key__), "sample yielded after resuming")
    close_loader(ld2)


def s_after(ld, n):
    return [pickle.loads(pickle.dumps(x)) for x in pipes.Stream(ld).take(n)]
