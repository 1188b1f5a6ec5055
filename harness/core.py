"""Runner for the runtime monitors.

A check module provides
  PROPERTY, LEVEL, RULE, ASSUMPTIONS
  plan(tier)            -> dict(n=<cases>, shards=<processes>, case_timeout=<s>, budget=<s>, min_events=<n>)
  gen(rng, idx, tier)   -> JSON-able case
  run_case(case, rec)   -> None; reports through the Recorder `rec`
optionally
  setup(scratch)        -> run once per shard process
  finish(agg)           -> list of (mech, message, info) from offline oracles over merged records

Cases run in forked shard processes (own session, so that everything a case started can be ended).
Three-valued verdict: violation / held / inconclusive (case timed out, monitor never reached).
"""
import collections
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAST = bool(os.environ.get("VERIF_FAST"))  # while developing (tools/mutate.py): stop at the first failing case
FAST_KNOWN = {}
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


class HarnessError(Exception):
    """The check itself is wrong or its environment is: never a verdict."""


class Recorder:
    """Collects what the monitors observed in one case."""

    def __init__(self, idx):
        self.idx = idx
        self.violations = []  # (mech, message)
        self.events = collections.Counter()
        self.keys = set()  # signatures of distinct non-trivial observations
        self.evals = 0
        self.sample = None
        self.data = []  # records for offline oracles
        self.tmp = None
        self.on_arm = None

    def arm(self):
        """From here on, not coming to an end is the code's fault (the case was seen to be well-formed)."""
        if self.on_arm:
            self.on_arm()

    def ev(self, name, n=1):
        self.events[name] += n

    def evaluated(self, key=None, n=1):
        """One oracle evaluation; key identifies it when non-trivial."""
        self.evals += n
        if key is not None:
            self.keys.add(key if isinstance(key, str) else repr(key))

    def violation(self, mech, msg):
        self.violations.append((mech, str(msg)[:4000]))

    def check(self, cond, mech, msg):
        if not cond:
            self.violation(mech, msg() if callable(msg) else msg)
        return bool(cond)


def load_known():
    """Known findings: mech tags that are listed (see known_findings.txt)."""
    path = os.path.join(VERIF, "known_findings.txt")
    res = collections.defaultdict(dict)
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split()
                prop = parts[1].split("=", 1)[1]
                mech = parts[2].split("=", 1)[1]
                res[prop][mech] = " ".join(parts[3:])
    return res


def in_repo_tb(exc):
    """True if the exception passed through code of the repository."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(REPO_SRC):
                return True
            tb = tb.tb_next
        if REPO_SRC in str(exc):  # re-raised from a worker process as text
            return True
        exc = exc.__cause__ or exc.__context__
    return False


def _run_one(mod, case, idx, scratch, on_arm=None):
    rec = Recorder(idx)
    rec.on_arm = on_arm
    rec.tmp = tempfile.mkdtemp(dir=scratch, prefix=f"c{idx}_")
    t0 = time.perf_counter()
    herr = None
    try:
        mod.run_case(case, rec)
    except HarnessError:
        herr = traceback.format_exc()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if in_repo_tb(e):
            rec.violation(
                "exception:" + type(e).__name__,
                "code under test raised where the property promises a result:\n"
                + "".join(traceback.format_exception(e))[-3000:],
            )
        else:
            herr = traceback.format_exc()
    finally:
        shutil.rmtree(rec.tmp, ignore_errors=True)
    return dict(
        idx=idx,
        violations=rec.violations,
        events=dict(rec.events),
        keys=rec.keys,
        evals=rec.evals,
        sample=rec.sample,
        data=rec.data,
        herr=herr,
        t=time.perf_counter() - t0,
    )


def case_rng(prop, seed, idx):
    return random.Random(f"{prop}:{seed}:{idx}")


def _shard_main(mod, prop, seed, tier, idxs, scratch, wfd, cases):
    os.setsid()
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_RDWR)
    if not os.environ.get("VERIF_VERBOSE"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    w = os.fdopen(wfd, "wb", buffering=0)

    def send(obj):
        b = pickle.dumps(obj)
        w.write(len(b).to_bytes(8, "big") + b)

    try:
        os.makedirs(scratch, exist_ok=True)
        if hasattr(mod, "setup"):
            mod.setup(scratch)
        for i in idxs:
            case = cases[i] if cases is not None else mod.gen(case_rng(prop, seed, i), i, tier)
            send(("start", i))
            send(("done", _run_one(mod, case, i, scratch, lambda: send(("armed", i)))))
        send(("end",))
    except BaseException:
        send(("crash", traceback.format_exc()))
    finally:
        w.close()
        os._exit(0)


class _Shard:
    def __init__(self, mod, prop, seed, tier, idxs, scratch, cases):
        self.args = (mod, prop, seed, tier, scratch, cases)
        self.pending = list(idxs)
        self.cur = None
        self.cur_t = None
        self.buf = b""
        self.spawn()

    def spawn(self):
        mod, prop, seed, tier, scratch, cases = self.args
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _shard_main(mod, prop, seed, tier, self.pending, scratch, w, cases)
            finally:
                os._exit(1)
        os.close(w)
        os.set_blocking(r, False)
        self.pid, self.r, self.buf = pid, r, b""
        self.cur, self.cur_t, self.alive, self.armed = None, time.time(), True, False

    def poll(self):
        """Yields messages."""
        out = []
        while True:
            try:
                chunk = os.read(self.r, 1 << 20)
            except BlockingIOError:
                break
            if not chunk:
                self.alive = False
                break
            self.buf += chunk
        while len(self.buf) >= 8:
            n = int.from_bytes(self.buf[:8], "big")
            if len(self.buf) < 8 + n:
                break
            out.append(pickle.loads(self.buf[8 : 8 + n]))
            self.buf = self.buf[8 + n :]
        return out

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        try:
            os.close(self.r)
        except OSError:
            pass


def execute(mod, prop, seed, tier, idxs, n_shards, case_timeout, budget, scratch, cases=None):
    """Runs cases over shard processes; returns (results, hangs, crashes, not_run). hangs: (case, armed)."""
    idxs = list(idxs)
    n_shards = max(1, min(n_shards, len(idxs)))
    t_end = time.time() + budget
    results, hangs, crashes = [], [], []
    shards = [
        _Shard(mod, prop, seed, tier, idxs[k::n_shards], os.path.join(scratch, f"sh{k}"), cases)
        for k in range(n_shards)
    ]
    live = list(shards)
    try:
        while live:
            progressed = False
            for s in list(live):
                for msg in s.poll():
                    progressed = True
                    if msg[0] == "start":
                        s.cur, s.cur_t, s.armed = msg[1], time.time(), False
                    elif msg[0] == "armed":
                        s.armed = True
                    elif msg[0] == "done":
                        results.append(msg[1])
                        s.pending.remove(msg[1]["idx"])
                        s.cur, s.cur_t = None, time.time()
                    elif msg[0] == "end":
                        live.remove(s)
                        s.kill()
                    elif msg[0] == "crash":
                        crashes.append((s.cur, msg[1]))
                        live.remove(s)
                        s.kill()
                if s not in live:
                    continue
                dead = not s.alive
                timed_out = s.cur is not None and time.time() - s.cur_t > case_timeout
                if dead or timed_out:
                    cur = s.cur
                    s.kill()
                    if cur is None:
                        crashes.append((None, "shard died outside of a case"))
                        live.remove(s)
                        continue
                    (hangs if timed_out else crashes).append(
                        (cur, s.armed) if timed_out else (cur, "process died during case")
                    )
                    s.pending.remove(cur)
                    if s.pending:
                        s.spawn()
                    else:
                        live.remove(s)
            if time.time() > t_end:
                break
            if FAST and (hangs or crashes or any(m not in (FAST_KNOWN.get(prop) or {}) for r in results for m, _ in r["violations"])):
                break
            if not progressed:
                time.sleep(0.02)
    finally:
        for s in live:
            s.kill()
    not_run = sum(len(s.pending) for s in live)
    return results, hangs, crashes, not_run


def main_run(mod, tier, seed, replay=None, out=sys.stdout):
    prop = mod.PROPERTY
    t0 = time.time()
    plan = dict(n=50, shards=8, case_timeout=60, budget=150, min_evals=1)
    plan.update(mod.plan(tier))
    cases = None
    if replay:
        rp = json.load(open(replay))
        cases = {0: rp["case"]}
        idxs = [0]
    else:
        idxs = list(range(plan["n"]))
        if hasattr(mod, "all_cases"):
            cl = mod.all_cases(tier, seed)
            cases = dict(enumerate(cl))
            idxs = list(cases)
    base = tempfile.mkdtemp(prefix=f"verif_{prop}_", dir=os.environ.get("VERIF_TMP"))
    os.chmod(base, 0o755)
    try:
        import gc

        gc.collect()
        gc.freeze()  # the loaders collect garbage after each item: keep that affordable
        FAST_KNOWN.update(load_known())
        results, hangs, crashes, not_run = execute(
            mod, prop, seed, tier, idxs, plan["shards"], plan["case_timeout"], plan["budget"], base, cases
        )
        # A case that did not finish, or died, is run again alone with a generous limit
        retry = sorted({c for c, armed in hangs if armed} | {c for c, _ in crashes if c is not None})
        confirmed, redo_fail = [], []
        if FAST and retry:
            print(f"FAST: hang or crash in cases {retry[:3]}", file=out)
            return 3
        if retry:
            for idx in retry[:3]:
                r2, h2, c2, _ = execute(
                    mod, prop, seed, tier, [idx], 1, plan["case_timeout"] * 2,
                    plan["case_timeout"] * 2 + 30, base, cases,
                )
                results += r2
                if any(armed for _, armed in h2):
                    confirmed.append(idx)
                if c2:
                    redo_fail.append((idx, c2[0][1]))
        if hangs and os.environ.get("VERIF_ALL"):
            print("timed out:", hangs, "confirmed:", confirmed, file=out)

        def case_of(idx):
            return cases[idx] if cases is not None else mod.gen(case_rng(prop, seed, idx), idx, tier)

        events = collections.Counter()
        keys, evals, viol, herrs, data, samples = set(), 0, [], [], [], []
        for r in sorted(results, key=lambda r: r["idx"]):
            events.update(r["events"])
            keys |= r["keys"]
            evals += r["evals"]
            data.extend(r["data"])
            if r["herr"]:
                herrs.append((r["idx"], r["herr"]))
            if r["sample"] is not None and len(samples) < 5:
                samples.append(r["sample"])
            for mech, msg in r["violations"]:
                viol.append((mech, msg, r["idx"]))
        if hasattr(mod, "finish") and not replay:
            for mech, msg in mod.finish(data, tier) or []:
                viol.append((mech, msg, None))
        for idx in confirmed:
            viol.append(("hang", f"case {idx} did not come to an end twice (limit {plan['case_timeout']}s, then {plan['case_timeout']*2}s alone)", idx))
        known = load_known().get(prop, {})
        unlisted = [v for v in viol if v[0] not in known]
        listed = [v for v in viol if v[0] in known]
        if known:
            for mech, desc in known.items():
                n = sum(1 for v in listed if v[0] == mech)
                print(f"KNOWN-FINDING: property={prop} {mech} {desc} (seen {n}x in this run)", file=out)
        inconclusive = []
        if not unlisted:
            if herrs:
                inconclusive.append(f"{len(herrs)} harness errors, first: case {herrs[0][0]}\n{herrs[0][1]}")
            if redo_fail:
                inconclusive.append(f"cases died: {redo_fail[:2]}")
            if any(c is None for c, _ in crashes):
                inconclusive.append(f"shard crashed: {[m for c, m in crashes if c is None][0]}")
            if evals < plan["min_evals"] and not replay:
                inconclusive.append(f"only {evals} oracle evaluations (need {plan['min_evals']})")
            for name, need in (plan.get("need_events") or {}).items():
                if events[name] < need and not replay:
                    inconclusive.append(f"monitor event {name!r}: {events[name]} < {need}")
        wall = time.time() - t0
        cov = dict(
            evaluations=evals,
            distinct_nontrivial=len(keys),
            rule=mod.RULE,
            samples=samples or ["(no sample recorded)"],
            cases_run=len(results),
            cases_planned=len(idxs),
            cases_not_run_in_budget=not_run,
            cases_timed_out_first_try=len(hangs),
            cases_degenerate_or_timed_out=sum(1 for _, armed in hangs if not armed),
            monitor_events=dict(events),
        )
        ev = dict(
            property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
            assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2),
            violations=len(unlisted),
        )
        if not replay:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
                json.dump(ev, f, indent=1, default=repr)
        print(
            f"{prop} tier={tier} seed={seed}: cases={len(results)}/{len(idxs)} evals={evals} "
            f"distinct={len(keys)} wall={wall:.1f}s events={dict(events.most_common(12))}", file=out,
        )
        if unlisted:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            by_mech = collections.OrderedDict()
            for v in unlisted:
                by_mech.setdefault(v[0], []).append(v)
            if os.environ.get("VERIF_ALL"):
                for mech, msg, idx in unlisted:
                    print(f"-- {mech} case={idx}: {msg[:900]}", file=out)
            for n, (mech, vs) in enumerate(list(by_mech.items())[:6]):
                mech_, msg, idx = vs[0]
                path = os.path.join(VERIF, "replays", f"{prop}-{n}.json")
                with open(path, "w") as f:
                    json.dump(dict(property=prop, seed=seed, tier=tier, idx=idx, mech=mech, msg=msg, occurrences=len(vs),
                                   case=None if idx is None else case_of(idx)), f, indent=1, default=repr)
                print(f"VIOLATION property={prop} replay={path}", file=out)
                print(f"  mechanism={mech} occurrences={len(vs)} case={idx}\n  " + msg.replace("\n", "\n  ")[:3000], file=out)
            return 1
        if inconclusive:
            for m in inconclusive:
                print(f"INCONCLUSIVE property={prop}: {m}", file=out)
            return 2
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)
