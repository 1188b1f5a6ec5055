"""C05: the sample stream depends on configuration and seed only, not on timing."""
import atexit
import json
import os
import pickle
import random
import subprocess
import sys

from harness import c05_run, emul, pipes
from harness.core import HarnessError
from harness.fp import diff_path, first_diff, fp
from harness.resume import END, Pipe, gen_any, reset_globals

PROPERTY = "C05"
LEVEL = "exploration"
RULE = (
    "Random pipelines (wrapper compositions and task encoders on datasets / metadatasets, with random draws in user functions) in real loaders "
    "with 0 to 4 workers run several times: without delays; with random, bursty or one-sided delays in the user functions of the workers, pauses "
    "of the consumer, saves at random points, random draws of the consumer, other checkpoint settings; and again in another process with another hash seed. All fields of all items, "
    "restore keys, random draws, indexes and ends of passes must be equal. The order in which the workers really made their calls is recorded: "
    "distinct orders for the same pipeline are counted. Different seed offsets must give different orders of a shuffled dataset. An evaluation is one run "
    "compared to the first one; distinct by pipeline and schedule."
)
ASSUMPTIONS = ["without workers, random draws of user functions come from the user's global random state, which is seeded equally"]


def plan(tier):
    need = {"runs": 80, "items": 800, "saves": 60, "other_process": 15, "orders": 40, "ends": 5, "w0": 5, "offsets": 30, "workers": 60}
    if tier == "quick":
        return dict(n=96, shards=8, case_timeout=120, budget=200, min_evals=60, need_events=need)
    return dict(n=2500, shards=8, case_timeout=120, budget=560, min_evals=800, need_events=need)


def schedule(rng, W, first=False):
    if first:
        return dict(seed=0, worker="none", ms=0, victim=0, consumer=0, save=0, noise=False, ck=None)
    return dict(
        seed=rng.randrange(1 << 30), worker=rng.choice(["random", "random", "slow", "burst", "none"]), ms=rng.choice([1, 3, 8]),
        victim=rng.randrange(max(W, 1)), consumer=rng.choice([0, 0, 5, 30]), save=rng.choice([0, 0.3, 0.7]), noise=rng.random() < 0.5,
        ck=rng.choice([None, dict(checkpoint_every_sec=0, checkpoint_every_min_n_samples=max(2 * W, 1)),
                       dict(checkpoint_every_sec=0.01, checkpoint_every_min_n_samples=max(3 * W, 1)), dict(n_checkpoints=4)]),
    )


def gen(rng, idx, tier):
    if idx % 3 == 2:
        return dict(mode="offset", seed=rng.randrange(1 << 30), n=rng.randint(14, 30), W=rng.choice([0, 1, 2]),
                    buf=rng.choice([8, 20]), psi=rng.choice([None, 2]))
    W = rng.choice([0, 1, 2, 2, 3, 4])
    spec = gen_any(rng, W=W, te_share=0.6)
    return dict(mode="run", spec=spec, n=rng.randint(6, 12) + 3 * W, savable=rng.random() < 0.85, globalseed=rng.randrange(1 << 30),
                scheds=[schedule(rng, W, True)] + [schedule(rng, W) for _ in range(2)], other=rng.random() < 0.5)


SERVER = None


def server():
    global SERVER
    if SERVER is None or SERVER.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(random.randrange(1, 1 << 20)), MALLOC_PERTURB_="7")
        SERVER = subprocess.Popen([sys.executable, "-m", "harness.c05_run"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True,
                                  cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), stderr=subprocess.DEVNULL)
        atexit.register(SERVER.kill)
    return SERVER


def there(case, root, sched, order):
    s = server()
    out = os.path.join(root, "result")
    s.stdin.write(json.dumps(dict(case=case, root=root, sched=sched, order=order, out=out)) + "\n")
    s.stdin.flush()
    if s.stdout.readline() != "done\n":
        raise HarnessError("the server process ended")
    with open(out, "rb") as f:
        res = pickle.load(f)
    if res[0] == "error":
        if res[1].startswith("Spin"):
            raise pipes.Spin()
        raise HarnessError("in the server: " + res[1])
    return res


def free(spec):
    return '"free"' in json.dumps(spec)


def run_case(case, rec):
    reset_globals()
    try:
        if case["mode"] == "offset":
            offset_case(case, rec)
        else:
            run(case, rec)
    finally:
        reset_globals()


def run(case, rec):
    case = json.loads(json.dumps(case))
    pipe = Pipe(case["spec"], rec.tmp)
    case["data"] = pipe.data
    case["free"] = free(case["spec"])
    W = case["spec"]["W"]
    # pipelines which never yield anything are recognised in this process
    try:
        for k in range(max(W, 1)):
            e = emul.EmuWorker(pipe.mk(), pipe.wcfg(), k)
            for _ in range(case["n"] // max(W, 1) + 6):
                e.next()
            e.close()
    except pipes.Spin:
        rec.ev("spin")
        return
    shape = pipe.shape()
    rec.sample = dict(shape=shape, W=W, scheds=case["scheds"])
    ref, orders = None, set()
    runs = [(s, False) for s in case["scheds"]]
    if case["other"]:
        runs.append((case["scheds"][-1], True))
    for i, (sched, other) in enumerate(runs):
        path = os.path.join(rec.tmp, f"order{i}")
        got, saves = (there if other else c05_run.run)(case, rec.tmp, sched, path)
        rec.ev("runs")
        rec.ev("items", len(got))
        rec.ev("saves", saves)
        rec.ev("ends", got.count(END))
        rec.ev("w0" if W == 0 else "workers")
        if other:
            rec.ev("other_process")
        if os.path.exists(path) and W > 1:
            with open(path, "rb") as f:
                orders.add(f.read())
        if ref is None:
            ref = got
            continue
        rec.evaluated(f"{shape}:{W}:{case['savable']}:{sched}:{other}")
        k = first_diff(ref, got)
        if k is not None:
            rec.violation("stream", f"item {k} differs from that of the first run: {diff_path(ref[k], got[k])}; {shape}, W={W}, schedule {sched}"
                          + (" in another process" if other else ""))
            return
    rec.ev("orders", len(orders))


def offset_case(case, rec):
    """Another seed_offset shuffles differently; the same one equally."""
    from megatron.energon import TaskEncoder, WorkerConfig, get_train_dataset

    from harness import dsgen

    W, n = case["W"], case["n"] * max(case["W"], 1)
    rng = random.Random(case["seed"])
    shards = []
    while sum(shards) < n:
        shards.append(rng.randint(1, 6))
    dsgen.make_ds(rec.tmp, dict(name="d", shards=shards, kind="text"))

    def order(offset, k):
        wc = WorkerConfig(rank=0, world_size=1, num_workers=W, seed_offset=offset)
        ds = get_train_dataset(os.path.join(rec.tmp, "d"), worker_config=wc, batch_size=None, shuffle_buffer_size=case["buf"],
                               max_samples_per_sequence=None, parallel_shard_iters=case["psi"], task_encoder=TaskEncoder())
        e = emul.EmuWorker(ds, wc, k)
        s = [e.next().text.split(":")[1] for _ in range(case["n"])]
        e.close()
        return s

    offsets = rng.sample(range(1000), 3)
    for k in range(max(W, 1)):
        seen = []
        for o in offsets:
            s = order(o, k)
            rec.check(s == order(o, k), "offset-same", lambda: f"seed_offset {o} gives different orders")
            rec.ev("offsets")
            for p, t in seen:
                rec.check(s != t, "offset-equal", lambda: f"seed_offset {o} and {p} give the same order of {n} samples in {shards}: {s}; buffer {case['buf']}, worker {k} of {W}")
            seen.append((o, s))
        rec.evaluated(f"offset:{W}:{shards}:{case['buf']}:{case['psi']}:{k}")
