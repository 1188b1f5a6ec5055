"""C27: worker debug logs account for every yielded sample; loaders shut down and fail without hanging."""
import faulthandler
import gc
import glob
import json
import multiprocessing
import os
import pickle
import random
import signal
import subprocess
import sys
import threading
import time
import traceback

import torch

from megatron.energon import TaskEncoder, WorkerConfig, get_loader, get_savable_loader, get_train_dataset, get_val_dataset
from megatron.energon.errors import FatalSampleError

from harness import dsgen, pipes
from harness.core import HarnessError
from harness.resume import END, Pipe, close_loader, emu_streams, first_diff, fp, gen_any, reset_globals, roundtrip, short
from harness import tes

PROPERTY = "C27"
LEVEL = "exploration"
RULE = (
    "Every case is a forked user process. Logs: random pipelines and batches of odd types are read through the savable and "
    "the basic loader without logging and with each level, log path pattern or standard output, with saves, resumes, "
    "restored samples and a second loader between the samples; the streams are compared and the parsed log files matched with "
    "what was delivered. Shutdown: a loader is dropped, exhausted, abandoned at the exit or by a kill of the process at a "
    "random point, or a worker fails (fatal error, exit, kill) at a random point; processes and threads are watched until "
    "they end. An evaluation is one matched log or one ended process; distinct by mode, level, workers, point."
)
ASSUMPTIONS = [
    "a user process that did not finish within 100 s (normally below 10 s), or a worker which is alive 30 s after its "
    "loader is gone, hangs",
    "user code that itself never returns, or data that cannot be pickled (torch loses it), is out of scope",
]
DEADLINE = 100
GONE = 30
NPRE = 4  # samples a worker may produce ahead


def plan(tier):
    if tier == "quick":
        return dict(n=130, shards=14, case_timeout=200, budget=200, min_evals=120,
                    need_events={"log_entries": 300, "worker_log_entries": 100, "dropped": 10, "failed_worker": 10,
                                 "killed_worker": 5, "left_open": 8, "save_dead": 2})
    return dict(n=1300, shards=16, case_timeout=200, budget=570, min_evals=1000,
                need_events={"log_entries": 3000, "worker_log_entries": 1000, "dropped": 100, "failed_worker": 100,
                             "killed_worker": 50, "left_open": 80, "save_dead": 20})


MODES = ("log", "drop", "fail", "log", "odd", "exit", "log", "drop", "fail", "script")
FAILS = ("memory", "recursion", "fatal", "sysexit", "os_exit", "kbd", "selfkill", "extkill", "extkill_save", "extkill_save")


def gen(rng, idx, tier):
    mode = MODES[idx % len(MODES)]
    if mode == "script" and idx % (30 if tier == "quick" else 50) != 9:
        mode = "exit"
    case = dict(mode=mode, seed=rng.randrange(1 << 30), savable=rng.random() < 0.7)
    if mode == "log":
        W = rng.choice([0, 1, 2, 2, 3])
        case.update(spec=tes.gen_te(rng, W=W, restorable=W == 0 or rng.random() < 0.7, allow_err=rng.random() < 0.3), level=rng.choice([1, 1, 2, 3]),
                    path=rng.choice(["w{worker_id}.txt", "w{worker_id}_{pid}.txt", "sub/dir/{worker_id}-{pid}.log"] + (["stdout"] if W == 0 else [])),
                    n=rng.randint(3, 16), two=rng.random() < 0.3, save=rng.random() < 0.5, restore=rng.random() < 0.5,
                    ck=rng.choice([{}, {"checkpoint_every_sec": 0}]))
    elif mode == "odd":
        case.update(W=rng.choice([0, 0, 1, 2]), shape=rng.choice(list(SHAPES)), level=rng.choice([1, 2, 3]), path="w{worker_id}_{pid}.txt", n=8)
    else:
        case.update(W=rng.choice([0, 1, 2, 2, 1] if mode == "fail" else [1, 2, 1, 1, 0, 3] if mode != "drop" else [1, 1, 1, 2, 0, 2, 3 if idx % 4 == 1 else 1]), shards=[rng.randint(1, 5) for _ in range(rng.randint(3, 6))],
                    train=rng.random() < 0.6, bs=rng.choice([1, 2, 3]), n=rng.choice([0, 1, 2, rng.randint(3, 30)]),
                    save=rng.random() < 0.5, loaders=rng.choice([1, 1, 1, 2]), slow=rng.choice([0, 0, 0.002, 0.02]),
                    how=rng.choice(["del", "del", "iter_alive", "exc"]), end=rng.choice(["return", "kill"]),
                    fail=FAILS[(idx // 10 + idx) % len(FAILS)], fail_at=rng.choice([0, 1, rng.randint(2, 12)]), wait=rng.choice([0, 0.01, 0.3]),
                    what=rng.choice(["return", "raise", "exit"]))
        if mode == "fail" and case["fail"].startswith("extkill"):
            case["W"] = max(1, case["W"])
            case["savable"] = case["savable"] or case["fail"] == "extkill_save"
    return case


# --- odd batches ----------------------------------------------------------------------------------------------------


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getstate__(self):
        return self.__dict__


SHAPES = dict(
    dict_key=lambda ks: {"__key__": ks, "x": 1},
    dict_keys=lambda ks: {"__keys__": ks},
    dict_plain_keys=lambda ks: {"keys": ks},
    dict_str=lambda ks: {"__key__": ks[0]},
    dict_tensor=lambda ks: {"keys": torch.tensor([1, 2, 3])},
    dict_int=lambda ks: {"keys": 3},
    dict_none=lambda ks: {"__key__": None, "keys": None},
    dict_nokeys=lambda ks: {"x": len(ks)},
    list_dict=lambda ks: [{"__key__": ks}, {"__key__": ks}],
    empty_list=lambda ks: [],
    tup=lambda ks: (len(ks), ks),
    integer=lambda ks: len(ks),
    tensor=lambda ks: torch.arange(len(ks)),
    text=lambda ks: "|".join(ks),
    obj_keys=lambda ks: Obj(__keys__=ks),
    obj_none=lambda ks: Obj(__keys__=None, __key__=None),
    obj_tuple=lambda ks: Obj(__keys__=tuple(ks)),
)


def odd_keys(shape, ks):
    """Keys the log has to show; the second: others that are acceptable."""
    if shape in ("dict_key", "dict_keys", "dict_plain_keys", "list_dict", "obj_keys"):
        return ks
    return None


class OddTE(TaskEncoder):
    shape = None

    def encode_sample(self, x):
        return x

    def encode_batch(self, b):
        return SHAPES[self.shape](list(b.__key__))


# --- the user process ----------------------------------------------------------------------------------------------


class FailTE(TaskEncoder):
    """Fails in a chosen way at a chosen sample."""

    kind = None
    text = None
    slow = 0

    def encode_sample(self, x):
        if self.slow:
            time.sleep(self.slow)
        if self.kind and x.text == self.text:
            k = self.kind
            if k == "memory":
                raise MemoryError("planned")
            if k == "recursion":
                raise RecursionError("planned")
            if k == "fatal":
                raise FatalSampleError("planned")
            if k == "sysexit":
                sys.exit(3)
            if k == "os_exit":
                os._exit(4)
            if k == "kbd":
                raise KeyboardInterrupt()
            if k == "selfkill":
                os.kill(os.getpid(), signal.SIGKILL)
        return x


def simple_ds(case, root, wcfg, te):
    kw = dict(worker_config=wcfg, batch_size=case["bs"], task_encoder=te)
    if case["train"]:
        return get_train_dataset(os.path.join(root, "d"), shuffle_buffer_size=None, max_samples_per_sequence=None, **kw)
    return get_val_dataset(os.path.join(root, "d"), split_part="train", **kw)


def make_loader(case, ds):
    return get_savable_loader(ds, checkpoint_every_sec=0) if case["savable"] else get_loader(ds)


class Log:
    """What the user process reports."""

    def __init__(self, root):
        self.root = root
        self.out, self.ev, self.keys = [], {}, []
        self.sample = None
        self.pids = set()

    def violation(self, mech, msg):
        self.out.append((mech, str(msg)[:3000]))

    def event(self, name, n=1):
        self.ev[name] = self.ev.get(name, 0) + n

    def phase(self, name):
        with open(os.path.join(self.root, "phase"), "w") as f:
            f.write(name)

    def note_pids(self):
        for p in multiprocessing.active_children():
            self.pids.add(p.pid)
        with open(os.path.join(self.root, "pids"), "w") as f:
            f.write(" ".join(map(str, self.pids)))

    def dump(self):
        tmp = os.path.join(self.root, "res.tmp")
        with open(tmp, "wb") as f:
            pickle.dump(dict(out=self.out, ev=self.ev, keys=self.keys, sample=self.sample, pids=self.pids), f)
        os.rename(tmp, os.path.join(self.root, "res"))


def user_main(case, root):
    os.setsid()
    fh = open(os.path.join(root, "trace"), "w")
    faulthandler.dump_traceback_later(DEADLINE - 10, file=fh)
    L = Log(root)
    try:
        dict(log=run_log, odd=run_odd, drop=run_drop, fail=run_fail, exit=run_exit)[case["mode"]](case, root, L)
    except BaseException:
        L.exc = traceback.format_exc()
        with open(os.path.join(root, "exc"), "w") as f:
            f.write(L.exc[-3000:])
    L.dump()


def run_case(case, rec):
    reset_globals()
    rec.ev("mode:" + case["mode"])
    rng = random.Random(case["seed"])
    root = rec.tmp
    if case["mode"] == "log":
        try:
            case["pipe"] = Pipe(case["spec"], root)
            emu_streams(case["pipe"], case["n"] * 2 + 8)
        except pipes.Spin:
            rec.ev("degenerate_skipped")
            return
        finally:
            reset_globals()
    else:
        shards = case.get("shards") or [rng.randint(1, 4) for _ in range(4)]
        while sum(shards) < max(case["W"], 1) * 2:
            shards.append(3)
        case["spec"] = dict(name="d", shards=shards, kind="text")
        dsgen.make_ds(root, case["spec"])
    if case["mode"] == "script":
        return run_script(case, rec)
    pid = os.fork()
    if pid == 0:
        rc = 9
        try:
            user_main(case, root)
            rc = 0
            if case["mode"] == "exit":
                # the ordinary end of a process, with the loader still there
                from multiprocessing import util

                threading._shutdown()
                util._exit_function()
        finally:
            os._exit(rc)
    t0 = time.time()
    ended = killed = False
    try:
        while time.time() - t0 < DEADLINE:
            if os.waitpid(pid, os.WNOHANG)[0]:
                ended = True
                break
            if case["mode"] == "exit" and case["end"] == "kill" and not killed and os.path.exists(os.path.join(root, "res")):
                time.sleep(case["wait"])
                os.kill(pid, signal.SIGKILL)
                killed = True
            time.sleep(0.01)
        res = None
        if os.path.exists(os.path.join(root, "res")):
            res = pickle.load(open(os.path.join(root, "res"), "rb"))
        what = describe(case)
        if not ended:
            ph = read(root, "phase")
            rec.violation("hang", f"the user process did not finish within {DEADLINE} s, in phase {ph!r}: {what}\n{read(root, 'trace')[-1800:]}")
            return
        if res is None:
            raise HarnessError(f"no result: {what}")
        if os.path.exists(os.path.join(root, "exc")):
            e = read(root, "exc")
            if "/src/megatron/energon" in e or "DataLoader" in e:
                rec.violation("exception", f"{what}: {e}")
                return
            raise HarnessError(e)
        for m, s in res["out"]:
            rec.violation(m, f"{s}\n{what}")
        for k, n in res["ev"].items():
            rec.ev(k, n)
        for k in res["keys"]:
            rec.evaluated(k)
        # no process may be left
        t1 = time.time()
        left = {p for p in map(int, read(root, "pids").split()) if alive(p)}
        n = len(left)
        while left and time.time() - t1 < GONE:
            time.sleep(0.02)
            left = {p for p in left if alive(p)}
        if left:
            rec.violation("orphans", f"{len(left)} worker processes are alive {GONE} s after the user process ended: {what}")
        if case["mode"] == "exit":
            rec.ev("left_open")
            rec.ev("had_workers_at_end", n)
            rec.evaluated(f"exit:{case['end']}:{case['W']}:{case['n']}:{case['savable']}")
        rec.sample = res["sample"] or dict(mode=case["mode"], what=what)
    finally:
        for p in [pid] + [int(x) for x in read(root, "pids").split()]:
            try:
                if p == pid and not ended:
                    os.killpg(p, signal.SIGKILL)
                elif p != pid and alive(p):
                    os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        if not ended:
            os.waitpid(pid, 0)


def read(root, name):
    p = os.path.join(root, name)
    if not os.path.exists(p):
        return ""
    with open(p) as f:
        return f.read()


def alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError:
        return False


def describe(case):
    d = {k: v for k, v in case.items() if k not in ("spec", "pipe", "seed")}
    if "pipe" in case:
        d["pipeline"] = f"{case['pipe'].shape()} W={case['pipe'].W}"
    return short(d, 700)


# --- logs -----------------------------------------------------------------------------------------------------------


def keys_of(x):
    k = getattr(x, "__key__", None)
    return k if isinstance(k, list) and all(isinstance(q, str) for q in k) else None


def run_log(case, root, L):
    rng = random.Random(case["seed"] + 1)
    pipe = case["pipe"]
    W, n = pipe.W, case["n"]
    mk = (lambda w: pipe.loader(case["ck"], w)) if case["savable"] else (lambda w: pipe.basic_loader(w))
    L.phase("unlogged")
    ld = mk(pipe.wcfg())
    s = pipes.Stream(ld)
    want = [fp(x) for x in s.take(n)]
    # state and stream of a second part
    close_loader(ld)
    del ld, s
    out = os.path.join(root, "stdout")
    if case["path"] == "stdout":
        fd = os.open(out, os.O_CREAT | os.O_WRONLY | os.O_APPEND)
        sys.stdout.flush()
        os.dup2(fd, 1)
        sys.stdout = os.fdopen(os.dup(fd), "w")
        wcfg = pipe.wcfg(worker_log_level=case["level"])
    else:
        path = case["path"]
        if case["two"] and W and "{pid}" not in path:
            path = "w{worker_id}_{pid}.txt"  # the workers of two loaders need to be told apart
        wcfg = pipe.wcfg(worker_log_level=case["level"], worker_debug_path=os.path.join(root, "logs", path))
    L.phase("logged")
    lds = [mk(wcfg) for _ in range(2 if case["two"] and (W or pipe.te) else 1)]
    ss = [pipes.Stream(x) for x in lds]
    got = [[] for _ in lds]
    raw = [[] for _ in lds]
    canrest = pipe.mk(pipe.wcfg()).can_restore_sample()
    restored = 0
    todo = [i for i in range(len(lds)) for _ in range(n)]
    if W:
        rng.shuffle(todo)
    saved = None
    for i in todo:
        x = ss[i].next()
        got[i].append(fp(x))
        raw[i].append(x)
        if case["save"] and case["savable"] and rng.random() < 0.3:
            lds[i].save_state_rank()
            L.event("saved")
        if case["restore"] and canrest and x is not END and rng.random() < 0.3:
            src = rng.choice([y for y in raw[i] if y is not END and hasattr(y, "__restore_key__")] or [None])
            if src is not None and W:
                L.phase("restore_sample")
                lds[i].restore_sample(src.__restore_key__)
                restored += 1
    L.event("restored_samples", restored)
    L.note_pids()
    for i in range(len(lds)):
        if got[i] != want:
            j = first_diff(got[i], want)
            L.violation("log-stream", f"loader {i}: token {j} differs from the stream without logs: got {short(got[i][j], 300)}, want {short(want[j], 300)}")
    ids = [x.id for x in lds]
    state = None
    if case["savable"] and len(lds) == 1 and case["path"] != "stdout" and case["save"]:
        L.phase("save")
        state = roundtrip(lds[0].save_state_rank(), "pickle")
    for x in lds:
        close_loader(x)
    L.phase("parse")
    if L.out:
        return
    match_logs(case, root, L, W, pipe, ids, raw, train=pipe.spec["training"])
    if state is not None and not L.out:
        L.phase("resumed")
        wcfg = pipe.wcfg(worker_log_level=case["level"], worker_debug_path=os.path.join(root, "logs2", case["path"]))
        ld = mk(wcfg)
        ld.restore_state_rank(state)
        raw2 = pipes.Stream(ld).take(n)
        L.note_pids()
        close_loader(ld)
        before = [0] * max(W, 1)
        for x in raw[0]:
            if x is not END:
                before[x.__restore_key__[1] - pipe.wcfg().rank * max(W, 1)] += 1
        match_logs(case, root, L, W, pipe, [ld.id], [raw2], train=pipe.spec["training"], before=before)
        L.event("resumed_logs")
    L.sample = dict(mode="log", pipeline=pipe.shape(), W=W, level=case["level"], path=case["path"], loaders=len(ids),
                    restored=restored, first=[short(keys_of(x), 60) if x is not END else "END" for x in raw[0][:4]])


def load(path, L):
    rows = []
    with open(path) as f:
        for i, line in enumerate(f):
            if not line.startswith("{") and os.path.basename(path) == "stdout":
                continue  # printed by others
            if not line.strip():
                continue
            try:
                rows.append(json.loads(line))
            except ValueError:
                L.violation("log-format", f"{path} line {i}: {short(line, 200)}")
                return rows
    return rows


def match_logs(case, root, L, W, pipe, ids, raw, train, keys=keys_of, rank=None, before=None):
    """Compares the parsed log files with what the user got."""
    rank = pipe.wcfg().rank if rank is None else rank
    if case["path"] == "stdout":
        main = [os.path.join(root, "stdout")]
        workers = []
    else:
        files = sorted(glob.glob(os.path.join(root, "logs2" if before else "logs", "**", "*"), recursive=True))
        files = [f for f in files if os.path.isfile(f)]
        wid = {}
        for f in files:
            b = os.path.basename(f).lstrip("w").split(".")[0]
            wid.setdefault(int(b.replace("-", "_").split("_")[0]), []).append(f)
        main = wid.get(rank * (W + 1), [])
        workers = [(k, f) for k, fs in wid.items() for f in fs if k != rank * (W + 1)]
    if len(main) != 1:
        L.violation("log-files", f"{len(main)} log files of the main process: " + "; ".join(f"{os.path.basename(f)}: {short(open(f).read()[-700:], 700)}" for f in main))
        return
    rows = load(main[0], L)
    for i, ident in enumerate(ids):
        seq = [r for r in rows if r.get("id") == ident and r["t"].split(".")[-1] in ("yield", "StopIteration")]
        exp = raw[i]
        names = ["StopIteration" if x is END else "yield" for x in exp]
        have = [r["t"].split(".")[-1] for r in seq]
        if have != names:
            L.violation("log-main", f"loader {i}: delivered {len(exp)} ({names}), the log shows {len(have)} ({have})")
            return
        it, g, last = None, 0, None
        for j, (r, x) in enumerate(zip(seq, exp)):
            if x is END:
                continue
            L.event("log_entries")
            if r["iter_id"] != it:
                it, k = r["iter_id"], 0
                if last is not None and r["idx"] not in (0, last + 1):
                    L.violation("log-index", f"loader {i} entry {j}: idx {r['idx']} after {last}")
            elif r["idx"] != last + 1:
                L.violation("log-index", f"loader {i} entry {j}: idx {r['idx']} after {last}")
            if last is None and r["idx"] != 0:
                L.violation("log-index", f"loader {i}: the first idx is {r['idx']}")
            last = r["idx"]
            if r["iter_idx"] != k or r["global_idx"] != g:
                L.violation("log-index", f"loader {i} entry {j}: iter_idx {r['iter_idx']} (expected {k}), global_idx {r['global_idx']} (expected {g})")
            k += 1
            g += 1
            ks = keys(x)
            if r.get("keys") != ks and not (ks is None and isinstance(r.get("keys"), (str, list))):
                L.violation("log-keys", f"loader {i} entry {j}: keys {short(r.get('keys'))}, delivered {short(ks)}")
            rk = getattr(x, "__restore_key__", None)
            if rk and (r["worker_id"], r["worker_idx"]) != (rk[1] - rank * max(W, 1), rk[2]):
                L.violation("log-worker", f"loader {i} entry {j}: worker {r['worker_id']} idx {r['worker_idx']}, delivered {rk[:3]}")
        L.keys.append(f"main:{case['mode']}:{case['level']}:{W}:{case['path']}:{case['savable']}:{len(exp)}:{pipe.shape() if pipe else case['shape']}")
    # The logs of the workers
    lev = 1 if train else 2
    mode = "train" if train else "val"
    if W == 0:
        ent = [r for r in rows if r["t"] == "yield_batch"]
        check_worker_rows(L, case, ent, lev, mode, ids, raw, rows, keys, rank, before[0] if before else 0)
        return
    per = {}
    for k, f in workers:
        w = k - rank * (W + 1) - 1
        if not 0 <= w < W:
            L.violation("log-files", f"log file {f} of no worker")
            return
        per.setdefault(w, []).append([r for r in load(f, L) if r["t"] == "yield_batch"])
    if L.out:
        return
    if case["level"] < lev:
        if any(x for fs in per.values() for x in fs):
            L.violation("log-level", "worker entries below the level")
        return
    for w in range(W):
        gw = rank * W + w
        want = []
        for i in range(len(ids)):
            seq = [r for r in rows if r.get("id") == ids[i] and r["t"].endswith(".yield")]
            want.append([(r["worker_idx"], keys(x)) for r, x in zip(seq, [x for x in raw[i] if x is not END]) if r["worker_id"] == w])
        logs = per.get(w, [])
        for lg in logs:
            first = lg[0]["idx"] if lg and before and lg[0]["idx"] <= before[w] else 0
            for j, r in enumerate(lg, first):
                if (r["r"], r["w"], r["m"], r["idx"]) != (rank, gw, mode, j):
                    L.violation("log-worker", f"worker {gw}: entry {j} is {short(r)}")
                    return
        # which log belongs to which loader is not known: both orders
        if "{pid}" not in case["path"] and len(ids) == 1 and len(logs) != 1 and want[0]:
            L.violation("log-worker", f"worker {gw}: {len(logs)} logs")
            return

        def fits(lg, wt):
            start = before[w] if before else 0
            by = {r["idx"]: r for r in lg}
            if len(by) != len(lg) or len([i for i in by if i >= start]) > len(wt) + NPRE * 4:
                return False
            return all(i in by and (k is None or by[i].get("keys") == k) for i, k in wt) and [i for i, _ in wt] == list(range(start, start + len(wt)))

        ws = [x for x in want]
        lgs = list(logs) + [[]] * (len(ws) - len(logs))
        ok = all(fits(a, b) for a, b in zip(lgs, ws)) or all(fits(a, b) for a, b in zip(lgs[::-1], ws))
        if not ok:
            L.violation("log-worker", f"worker {gw}: delivered {short([len(x) for x in ws])}: {short(ws[0], 300)}; logged {[len(x) for x in lgs]}: {short([(r['idx'], r.get('keys')) for r in lgs[0]], 300)}")
            return
        L.event("worker_log_entries", sum(map(len, logs)))
        L.keys.append(f"worker:{case['mode']}:{case['level']}:{W}:{w}:{case['path']}:{[len(x) for x in ws]}:{pipe.shape() if pipe else case['shape']}")


def check_worker_rows(L, case, ent, lev, mode, ids, raw, rows, keys, rank, start):
    if case["level"] < lev:
        if ent:
            L.violation("log-level", "worker entries below the level")
        return
    # without workers, the entry of the worker directly precedes that of the loader
    pos = 0
    exp = []
    for r in rows:
        if r["t"] == "yield_batch":
            exp.append(r)
    flat = []
    for i, x in zip(ids, raw):
        flat.append([keys(y) for y in x if y is not END])
    if len(ids) == 1:
        got = [r.get("keys") for r in exp]
        if len(got) != len(flat[0]) or any(k is not None and k != g for k, g in zip(flat[0], got)):
            L.violation("log-worker", f"yield_batch entries {short(got)}, delivered {short(flat[0])}")
        if [r["idx"] for r in exp] != list(range(start, start + len(exp))) or any((r["r"], r["w"], r["m"]) != (rank, rank, mode) for r in exp):
            L.violation("log-worker", f"yield_batch entries {short(exp)}")
    elif len(exp) != sum(map(len, flat)):
        L.violation("log-worker", f"{len(exp)} yield_batch entries for {list(map(len, flat))} samples")
    L.event("worker_log_entries", len(exp))


def run_odd(case, root, L):
    W = case["W"]
    te = OddTE()
    te.shape = case["shape"]

    def loader(**kw):
        w = WorkerConfig(rank=0, world_size=1, num_workers=W, **kw)
        ds = get_train_dataset(os.path.join(root, "d"), worker_config=w, batch_size=2, task_encoder=te, shuffle_buffer_size=None, max_samples_per_sequence=None)
        return make_loader(case, ds)

    def sig(x):
        return fp(x.__dict__) if isinstance(x, Obj) else fp(x)

    # the keys behind the odd batches
    te.shape = "dict_key"
    ld = loader()
    ks = [x["__key__"] for x in pipes.Stream(ld).take(case["n"])]
    close_loader(ld)
    te.shape = case["shape"]
    ld = loader()
    want = [sig(x) for x in pipes.Stream(ld).take(case["n"])]
    close_loader(ld)
    L.phase("logged")
    ld = loader(worker_log_level=case["level"], worker_debug_path=os.path.join(root, "logs", case["path"]))
    try:
        raw = pipes.Stream(ld).take(case["n"])
    except Exception:
        L.violation("log-odd", f"reading with logs failed, it works without, for {short(SHAPES[case['shape']](ks[0]))}: {traceback.format_exc()[-900:]}")
        L.note_pids()
        close_loader(ld)
        return
    L.note_pids()
    close_loader(ld)
    if [sig(x) for x in raw] != want:
        L.violation("log-stream", "the stream differs")
        return
    it = iter(ks)
    exp = {id(x): odd_keys(case["shape"], next(it)) for x in raw}
    if len(exp) == len(raw):
        match_logs(case, root, L, W, None, [ld.id], [raw], True, keys=lambda x: exp[id(x)], rank=0)
    L.keys.append(f"odd:{case['shape']}:{W}:{case['level']}")


# --- shutdown -------------------------------------------------------------------------------------------------------


def base(L):
    gc.collect()
    return threading.active_count()


def wait_gone(L, case, nthreads, what):
    t0 = time.time()
    while True:
        gc.collect()
        kids = multiprocessing.active_children()
        th = threading.active_count()
        if not kids and th <= nthreads:
            return True
        if time.time() - t0 > GONE:
            L.violation("leak", f"{what}: {len(kids)} worker processes, threads {[t.name for t in threading.enumerate()]} are left after {GONE} s")
            return False
        time.sleep(0.02)


def wcfg_s(case):
    return WorkerConfig(rank=0, world_size=1, num_workers=case["W"])


def run_drop(case, root, L):
    rng = random.Random(case["seed"])
    nth = base(L)
    te = FailTE()
    te.slow = case["slow"]
    for rnd in range(2 if case["W"] < 2 and case["loaders"] == 1 else 1):
        lds = [make_loader(case, simple_ds(case, root, wcfg_s(case), te)) for _ in range(case["loaders"])]
        its = []
        ref = None
        for i, ld in enumerate(lds):
            L.phase(f"read {i}")
            s = pipes.Stream(ld)
            got = [fp(x) for x in s.take(case["n"])]
            L.note_pids()
            its.append(s.it)
            if case["W"] and case["n"] and not multiprocessing.active_children():
                L.violation("harness", "no worker processes seen")
            if case["save"] and case["savable"]:
                L.phase("save")
                ld.save_state_rank()
            if rng.random() < 0.3 and got:
                L.phase("again")
                pipes.Stream(ld).take(rng.randint(1, 3))
        rng.shuffle(lds)
        L.phase("drop")
        if case["how"] == "exc":
            # dropped by an exception passing through the frame which holds it
            def f(a, b):
                lds_, its_ = list(a), list(b)
                a.clear()
                b.clear()
                raise KeyError("user")

            del ld, s
            try:
                f(lds, its)
            except KeyError:
                pass
        elif case["how"] == "iter_alive":
            del lds[:], ld, s
            gc.collect()
            # the iterator is still usable
            for it in its:
                if it is not None:
                    try:
                        next(it)
                    except StopIteration:
                        pass
            del it, its[:]
        else:
            del lds, its, ld, s
        if not wait_gone(L, case, nth, "dropped after %d" % case["n"]):
            return
        L.event("dropped")
        L.keys.append(f"drop:{case['how']}:{case['W']}:{case['n']}:{case['savable']}:{case['train']}:{case['save']}:{case['loaders']}:{rnd}")


def run_exit(case, root, L):
    te = FailTE()
    te.slow = case["slow"]
    L.hold = []
    for _ in range(case["loaders"]):
        ld = make_loader(case, simple_ds(case, root, wcfg_s(case), te))
        s = pipes.Stream(ld)
        s.take(case["n"])
        L.note_pids()
        if case["save"] and case["savable"]:
            L.phase("save")
            ld.save_state_rank()
        L.hold.append((ld, s))
    globals()["_HOLD"] = L.hold
    if case["end"] == "kill":
        L.phase("killed")
        L.dump()
        time.sleep(60)
        return
    L.phase("exit")


def run_fail(case, root, L):
    rng = random.Random(case["seed"])
    nth = base(L)
    N = 40
    te = FailTE()
    ld = make_loader(case, simple_ds(case, root, wcfg_s(case), te))
    want = [fp(x) for x in pipes.Stream(ld).take(N)]
    close_loader(ld)
    del ld
    wait_gone(L, case, nth, "reference")
    texts = [dsgen.payload("d", i) for i in range(sum(case["spec"]["shards"]))]
    te.kind, te.text = case["fail"], texts[case["fail_at"] % len(texts)]
    te.slow = case["slow"]
    L.phase("build")
    ld = make_loader(case, simple_ds(case, root, wcfg_s(case), te))
    s = pipes.Stream(ld)
    got, err = [], None
    ext = case["fail"].startswith("extkill")
    k = rng.randint(1, 12)
    victim = None
    if case["W"] == 0 and case["fail"] in ("os_exit", "selfkill"):
        return
    try:
        while len(got) < 10 * N:
            if ext and len(got) == k:
                kids = multiprocessing.active_children()
                victim = rng.choice(kids)
                time.sleep(case["wait"])
                os.kill(victim.pid, signal.SIGKILL)
                if rng.random() < 0.5:
                    victim.join()
                L.event("killed_worker")
                if case["fail"] == "extkill_save":
                    L.phase("save with a killed worker")
                    L.event("save_dead")
                    try:
                        ld.save_state_rank()
                        L.event("save_dead_returned")
                    except Exception:
                        L.event("save_dead_raised")
            L.phase(f"read {len(got)}")
            got.append(fp(s.next()))
            L.note_pids()
    except BaseException as e:
        err = e
        etxt = f"{type(e).__name__}: {short(str(e), 200)}"
        e.__traceback__ = None
        e.__cause__ = e.__context__ = None
    L.note_pids()
    if err is None:
        L.violation("silent", f"the failure of the worker did not surface within {len(got)} samples")
        return
    L.event("failed_worker")
    if got[:N] != want[: len(got)]:
        j = first_diff(got[:N], want[: len(got)])
        L.violation("fail-stream", f"token {j} of {len(got)} before the failure differs: {short(got[j], 200)}")
    exp = dict(memory="FatalSampleError", recursion="FatalSampleError", fatal="FatalSampleError").get(case["fail"])
    if exp and exp not in etxt:
        L.violation("fail-type", f"expected {exp}, got {etxt}")
    if case["savable"]:
        L.phase("save after the failure")
        L.event("save_dead")
        try:
            ld.save_state_rank()
            L.event("save_failed_returned")
        except Exception:
            L.event("save_failed_raised")
    L.phase("drop after the failure")
    del ld, s, err
    victim = None
    if wait_gone(L, case, nth, f"after {etxt}"):
        L.keys.append(f"fail:{case['fail']}:{case['W']}:{len(got)}:{case['savable']}:{case['slow']}")
    L.sample = dict(mode="fail", fail=case["fail"], W=case["W"], delivered_before=len(got), error=etxt)


SCRIPT = """
import sys
sys.path.insert(0, {src!r})
from megatron.energon import WorkerConfig, get_loader, get_savable_loader, get_train_dataset
import multiprocessing
def main():
    w = WorkerConfig(rank=0, world_size=1, num_workers={W})
    ds = get_train_dataset({path!r}, worker_config=w, batch_size={bs}, shuffle_buffer_size=None, max_samples_per_sequence=None)
    global ld, it
    ld = {loader}(ds)
    it = iter(ld)
    for _ in range({n}):
        next(it)
    if {save}:
        ld.save_state_rank()
    print("PIDS", *[p.pid for p in multiprocessing.active_children()], flush=True)
    {end}
if __name__ == "__main__":
    main()
"""


def run_script(case, rec):
    src = os.environ.get("VERIF_REPO_SRC", "/repo/src")
    prog = SCRIPT.format(
        src=src, W=case["W"], path=os.path.join(rec.tmp, "d"), bs=case["bs"], n=case["n"], save=case["save"] and case["savable"],
        loader="get_savable_loader" if case["savable"] else "get_loader",
        end=dict(exit="sys.exit(0)", **{"return": "pass", "raise": "raise SystemExit('planned')"})[case["what"]],
    )
    p = subprocess.Popen([sys.executable, "-c", prog], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=DEADLINE)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        rec.violation("hang", f"the script did not end within {DEADLINE} s: {describe(case)} {out} {err[-800:]}")
        return
    line = [x for x in out.splitlines() if x.startswith("PIDS")]
    if not line:
        rec.violation("exception", f"script failed: {err[-1500:]}")
        return
    pids = list(map(int, line[0].split()[1:]))
    t0 = time.time()
    while any(map(alive, pids)) and time.time() - t0 < GONE:
        time.sleep(0.05)
    left = [q for q in pids if alive(q)]
    for q in left:
        os.kill(q, signal.SIGKILL)
    if left:
        rec.violation("orphans", f"{len(left)} workers of {len(pids)} outlive the script: {describe(case)}")
    if p.returncode != (1 if case["what"] == "raise" else 0):
        rec.violation("exit-code", f"exit code {p.returncode}: {describe(case)} {err[-900:]}")
    rec.ev("left_open")
    rec.ev("scripts")
    rec.evaluated(f"script:{case['what']}:{case['W']}:{case['n']}:{case['savable']}")
    rec.sample = dict(mode="script", W=case["W"], end=case["what"], rc=p.returncode)
