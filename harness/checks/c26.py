"""C26: an interrupted preparation never leaves a dataset that loads wrong data."""
import atexit
import inspect
import json
import os
import re
import shutil
import subprocess
import sys

import yaml

from harness import dsgen
from harness.core import HarnessError

PROPERTY = "C26"
LEVEL = "fault injection"
RULE = (
    "Random datasets are prepared (API, command line, or only the index) in a process group under a preloaded library that "
    "counts every file-changing system call below the dataset and, at a chosen one, kills the group - also after a part of a "
    "write - or lets that call or all following ones fail; from a fresh directory, over an earlier preparation with other "
    "splits or fewer shards, and after an earlier crash. An evaluation is one split loaded after one interruption, compared "
    "with the data before and after an undisturbed preparation, or one comparison of the files after preparing again; "
    "distinct by scenario, fault and call."
)
ASSUMPTIONS = [
    "the process dies or a call fails; what was written stays written (no power loss)",
    "the tar files already covered by an earlier preparation are unchanged",
    "a shard reported as failed in the log is left out (that is documented behaviour)",
]
ERRS = {"ENOSPC": 28, "EIO": 5}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plan(tier):
    need = {"runs": 150, "killed": 60, "failed_call": 30, "partial_writes": 20, "loaded": 100, "load_error": 40, "repaired": 100,
            "kind_OPEN": 10, "kind_WRITE": 20, "kind_RENAME": 5, "old_state": 10, "new_state": 10}
    if tier == "quick":
        return dict(n=24, shards=6, case_timeout=120, budget=200, min_evals=300, need_events=need)
    return dict(n=400, shards=8, case_timeout=180, budget=600, min_evals=3000, need_events=need)


def setup(scratch):
    so = os.path.join(scratch, "faultio.so")
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so, os.path.join(HERE, "native", "faultio.c"), "-ldl"],
                       capture_output=True, text=True)
    if r.returncode:
        raise HarnessError("faultio.c does not compile: " + r.stderr[-500:])
    os.environ["FAULTIO"] = so


def gen(rng, idx, tier):
    ns = rng.randint(1, 4)
    shards = [rng.randint(1, 6) for _ in range(ns)]
    if rng.random() < 0.15:
        shards[rng.randrange(ns)] = 1100
    start = rng.choice(["fresh", "fresh", "resplit", "resplit", "added", "same"])
    if start == "added" and ns == 1:
        start = "fresh"
    how = rng.choice(["api"] * 5 + ["cli"] * 2 + ["index"] * 1)
    if how == "index" and start == "fresh":
        start = "same"
    if how == "index":
        start = "same"
    return dict(
        shards=shards, start=start, how=how, workers=rng.choice([1, 1, 2, 3]), split=rand_split(rng, ns),
        old_split=rand_split(rng, ns if start != "added" else ns - 1), noidx=how == "index" and rng.random() < 0.5,
        points=rng.randint(4, 6) if tier == "quick" else rng.randint(8, 20), seed=rng.randrange(1 << 30),
        twice=rng.random() < 0.3,
    )


def rand_split(rng, ns):
    if rng.random() < 0.5:
        return dict(ratio=rng.choice([[1, 0, 0], [1, 1, 0], [2, 1, 1], [0.5, 0.25, 0.25], [8, 1, 1]]),
                    shuffle=rng.choice([None, 42, 7]))
    names = list(range(ns))
    rng.shuffle(names)
    cut = rng.randint(1, ns)
    return dict(patterns=[["train", names[:cut]], ["val", names[cut:] or names[:1]]], shuffle=None)


class Server:
    proc = None

    @classmethod
    def call(cls, **req):
        if cls.proc is None or cls.owner != os.getpid():
            cls.owner = os.getpid()
            env = dict(os.environ, LD_PRELOAD=os.environ["FAULTIO"])
            cls.proc = subprocess.Popen([sys.executable, "-m", "harness.c26_server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        stderr=subprocess.DEVNULL, env=env, text=True, cwd=os.path.dirname(HERE))
            atexit.register(cls.proc.kill)
        cls.proc.stdin.write(json.dumps(req) + "\n")
        cls.proc.stdin.flush()
        line = cls.proc.stdout.readline()
        if not line:
            cls.proc = None
            raise HarnessError("the fault injection server died")
        return json.loads(line)


def split_args(sp):
    if "ratio" in sp:
        return dict(split_parts_ratio=[[n, r] for n, r in zip(("train", "val", "test"), sp["ratio"])], shuffle_seed=sp["shuffle"])
    return dict(split_parts_patterns=[[n, "parts/data-(" + "|".join(map(str, ids)) + r")\.tar"] for n, ids in sp["patterns"]],
                shuffle_seed=None)


def text_class_idx():
    import megatron.energon as e
    from megatron.energon import Sample

    names = [n for n, c in inspect.getmembers(e) if isinstance(c, type) and issubclass(c, Sample)]
    return names.index("TextSample")


class Scenario:
    def __init__(self, case, tmp):
        self.case, self.tmp = case, tmp
        self.ds = os.path.join(tmp, "ds")
        self.ns = len(case["shards"])
        self.runs = 0

    def request(self, op, sp, n, path, fault=None):
        c = self.case
        fault = fault or dict(mode=0, at=0, frac=0, err=0)
        out = os.path.join(self.tmp, "out.txt")
        req = dict(fault, root=path, out=out, op=op, cli=None, input="", args=None)
        paths = [dsgen.shard_name(s) for s in range(n)]
        if op == "cli":
            prepared = any(os.path.isfile(os.path.join(path, ".nv-meta", f)) for f in ("dataset.yaml", ".info.yaml"))
            cli, inp = [path, "--no-progress", "--num-workers", str(c["workers"])], ["y"] if prepared else []
            a = split_args(sp)
            if "ratio" in sp:
                inp.append(",".join(str(r) for r in sp["ratio"]))
                if sp["shuffle"] is not None:
                    cli.append("--shuffle-tars")
            else:
                for name, pat in a["split_parts_patterns"]:
                    cli += ["--split-parts", f"{name}:{pat}"]
            req.update(cli=cli, input="\n".join(inp + ["y", str(text_class_idx()), "y", "txt"]) + "\n")
        elif op == "index" and self.case["seed"] % 2:
            req.update(cli=[path, "--no-progress", "--num-workers", str(c["workers"]), "--tar-index-only"])
        else:
            req["args"] = dict(path=path, paths=paths, workers=c["workers"], **split_args(sp))
        self.runs += 1
        ans = Server.call(**req)
        with open(out) as f:
            lines = f.read().splitlines()
        ans["done"] = "DONE" in lines
        ans["exc"] = [ln[4:] for ln in lines if ln.startswith("EXC ")]
        ans["failed"] = set(re.findall(r"parts/data-\d+\.tar", " ".join(ln for ln in lines if ln.startswith("LOG Shard failed"))))
        ans["fault"] = fault
        return ans


def load(path):
    """Split -> list of (key, text), or an exception."""
    from megatron.energon import WorkerConfig, get_loader, get_val_dataset

    res = {}
    for split in ("train", "val", "test"):
        try:
            ds = get_val_dataset(path, split_part=split, worker_config=WorkerConfig(rank=0, world_size=1, num_workers=0), batch_size=4)
            res[split] = [kt for b in get_loader(ds) for kt in zip(b.__key__, b.text)]
        except Exception as e:
            res[split] = e
    return res


def tree(path):
    res = {}
    for d, _, fs in os.walk(path):
        for f in fs:
            if f.endswith(".tmp") or f.endswith(".tar"):
                continue
            with open(os.path.join(d, f), "rb") as fh:
                b = fh.read()
            res[os.path.relpath(os.path.join(d, f), path)] = yaml.safe_load(b) if f.endswith(".yaml") else b
    return res


def same(a, b):
    if isinstance(a, Exception) or isinstance(b, Exception):
        return isinstance(a, Exception) and isinstance(b, Exception)
    return a == b


def show(x):
    return repr(x)[:160] if isinstance(x, Exception) else f"{len(x)} samples {[k for k, _ in x][:12]}"


def restore_state(src, dst):
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)


def run_case(case, rec):
    import random

    rng = random.Random(case["seed"])
    sc = Scenario(case, rec.tmp)
    spec = dict(name="ds", shards=case["shards"], kind="text")
    os.makedirs(sc.ds)
    dsgen.make_ds(rec.tmp, spec, prepare=False)
    ids, i = {}, 0
    for s, c in enumerate(case["shards"]):
        ids[dsgen.shard_name(s)] = [(dsgen.shard_name(s) + "/" + dsgen.key_of("ds", j), dsgen.payload("ds", j)) for j in range(i, i + c)]
        i += c
    if case["how"] != "cli":
        os.makedirs(os.path.join(sc.ds, ".nv-meta"))
        dsgen.write_dataset_yaml(sc.ds, spec)
    old = None
    if case["start"] != "fresh":
        a = sc.request("cli" if case["how"] == "cli" else "api", case["split"] if case["start"] == "same" else case["old_split"],
                       sc.ns - (case["start"] == "added"), sc.ds)
        if not a["done"]:
            raise HarnessError(f"first preparation failed: {a}")
        old = load(sc.ds)
        if case["noidx"]:
            os.unlink(os.path.join(sc.ds, dsgen.shard_name(rng.randrange(sc.ns)) + ".idx"))
    initial = os.path.join(rec.tmp, "initial")
    restore_state(sc.ds, initial)
    ref = sc.request(case["how"], case["split"], sc.ns, sc.ds)
    if not ref["done"] or ref["failed"]:
        return rec.violation("clean_preparation", f"an undisturbed preparation fails: {ref}")
    new, new_tree = load(sc.ds), tree(sc.ds)
    if sum(len(v) for v in new.values() if not isinstance(v, Exception)) == 0:
        raise HarnessError(f"nothing loads after an undisturbed preparation: {new} {sorted(new_tree)}")
    for split, got in new.items():
        if isinstance(got, Exception):
            continue
        rest = list(got)
        while rest:
            sh = next((sh for sh, l in ids.items() if l[: len(rest)] and rest[: len(l)] == l), None)
            if sh is None:
                return rec.violation("clean_preparation", f"split {split}: {show(got)}")
            rest = rest[len(ids[sh]):]
    n = ref["n"]
    rec.ev("calls_seen", n)
    faults = [dict(mode=1, at=k, frac=0, err=0) for k in range(1, n + 1)]
    faults += [dict(mode=m, at=k, frac=0, err=e) for k in range(1, n + 1) for m, e in ((2, rng.choice(list(ERRS.values()))), (3, ERRS["ENOSPC"]))]
    faults = rng.sample(faults, min(len(faults), case["points"]))
    log = ref["log"].split()
    for k, entry in enumerate(log, 1):
        if entry[0] == "W" and log.count(entry) > 1 and log.index(entry) == k - 1:
            # fails in the middle of a file
            faults += [dict(mode=2, at=k, frac=0, err=ERRS["EIO"]), dict(mode=3, at=k, frac=0, err=ERRS["ENOSPC"])]
    # parts of writes, preferring ends of entries
    cuts = []
    files = {}
    for d, _, fs in os.walk(sc.ds):
        for f in fs:
            with open(os.path.join(d, f), "rb") as fh:
                files[f] = fh.read()
    for k, entry in enumerate(log, 1):
        name = re.sub(r"\.tmp$", "", entry[1:])
        if entry[0] == "W" and name in files:
            b = files[name]
            if name.endswith(".idx"):
                at = range(8, len(b), 8)
            else:
                ends = [i + 1 for i in range(len(b)) if b[i : i + 1] == b"\n"]
                at = ends[:-1] + [e - 1 for e in ends] + [e - 2 for e in ends]
            at = rng.sample(list(at), min(len(at), 3)) + [rng.randrange(max(len(b), 1))]
            cuts += [(name.endswith(".yaml"), dict(mode=1, at=k, frac=c, err=0)) for c in at]
    cuts.sort(key=lambda c: rng.random() * (0.4 if c[0] else 1))
    faults += [c for _, c in cuts[: case["points"]]]
    rec.sample = dict(case=case, calls=ref["log"][:400], faults=faults[:3])
    for fault in faults:
        restore_state(initial, sc.ds)
        before = old
        history = [fault]
        if case["twice"]:
            first = rng.choice(faults)
            if first["mode"] == 1:
                sc.request(case["how"], case["split"], sc.ns, sc.ds, first)
                history.insert(0, first)
        a = sc.request(case["how"], case["split"], sc.ns, sc.ds, fault)
        rec.ev("runs")
        if a["status"] == "hang":
            rec.violation("hang", f"preparation does not end after {fault}; calls {a['log'][-300:]}")
            continue
        if a["hit"]:
            kind = ["OPEN", "WRITE", "RENAME", "UNLINK", "MKDIR", "TRUNC", "LINK"][a["hit_kind"]]
            rec.ev("kind_" + kind)
            rec.ev("killed" if fault["mode"] == 1 else "failed_call")
            if fault["mode"] == 1 and fault["frac"] and kind == "WRITE":
                rec.ev("partial_writes")
        judge(rec, sc, case, a, history, before, new, ids, load(sc.ds))
        # and again, without a fault
        b = sc.request(case["how"], case["split"], sc.ns, sc.ds)
        if case["how"] == "index" and not b["done"]:
            rec.violation("not_repaired", f"{b['exc']} after {history}")
            continue
        again, t = load(sc.ds), tree(sc.ds)
        ctx = f"{case['how']} on {case['start']} after {history}, calls {a['log'][-200:]}"
        rec.evaluated(repr((case["seed"], "again", fault)))
        if not b["done"] or b["failed"]:
            rec.violation("not_repaired", f"preparing again fails: {b['exc']} {b['failed']}; {ctx}")
        elif t != new_tree:
            diff = [f for f in set(t) | set(new_tree) if t.get(f) != new_tree.get(f)]
            rec.violation("not_repaired", f"other files after preparing again: {[(f, str(t.get(f))[:200], str(new_tree.get(f))[:200]) for f in diff]}; {ctx}")
        elif not all(same(again[s], new[s]) for s in new):
            rec.violation("not_repaired", f"{[(s, show(again[s]), show(new[s])) for s in new]}; {ctx}")
        else:
            rec.ev("repaired")


def judge(rec, sc, case, a, history, old, new, ids, got):
    ctx = (f"{case['how']} on {case['start']}, {'returned' if a['done'] else (a['exc'][0][-300:] if a['exc'] else 'killed')}, failed shards "
           f"{sorted(a['failed'])}, faults {history}, calls {a['log'][-300:]}")
    fault = history[-1]
    for split, x in got.items():
        rec.evaluated(repr((case["seed"], split, fault)))
        if isinstance(x, Exception):
            rec.ev("load_error")
            if a["done"] and not a["failed"] and not isinstance(new[split], Exception):
                rec.violation("reported_done", f"the preparation returned without an error, but split {split} fails: {x!r}; {ctx}")
            continue
        rec.ev("loaded")
        if not isinstance(new[split], Exception) and x == new[split]:
            rec.ev("new_state")
            continue
        if old is not None and not isinstance(old[split], Exception) and x == old[split] and not a["done"]:
            rec.ev("old_state")
            continue
        if fault["mode"] == 1 or not a["failed"]:
            rec.violation("wrong_data", f"split {split}: {show(x)}; before: {show(old[split]) if old else None}; undisturbed: {show(new[split])}; {ctx}")
    if fault["mode"] != 1 and a["failed"]:
        # shards that were reported as failed are left out, the others are complete
        seen = {}
        for split, x in got.items():
            rest = [] if isinstance(x, Exception) else list(x)
            while rest:
                sh = next((sh for sh, l in ids.items() if rest[: len(l)] == l), None)
                if sh is None:
                    rec.violation("wrong_data", f"split {split}: {show(x)}; {ctx}")
                    break
                seen[sh] = split
                rest = rest[len(ids[sh]):]
        rec.ev("reported_failed")
