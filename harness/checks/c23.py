"""C23: distributed save and restore hand every rank its own state back."""
import faulthandler
import os
import pickle
import random
import signal
import time

import torch
import torch.distributed as dist

from megatron.energon import WorkerConfig

from harness import pipes, tes
from harness.core import HarnessError
from harness.resume import END, Pipe, close_loader, emu_streams, first_diff, fp, reset_globals, short

PROPERTY = "C23"
LEVEL = "exploration"
RULE = (
    "Process groups (gloo, loopback) of 1-5 forked ranks, whole or partitioned into data parallel subgroups of any ranks; "
    "every rank reads its own loader over a random pipeline up to a point of its own, saves (to every rank or to one), goes "
    "on, and a fresh loader is restored (from every rank or from one; the state round-tripped or moved through a file), "
    "twice in a row, with random delays before each collective. The continued stream is compared with the rank's own "
    "uninterrupted stream and the list handed out with the states of the ranks. An evaluation is one continued stream "
    "or one handed out list; distinct by group layout, rank, modes, workers, progress."
)
ASSUMPTIONS = [
    "the collectives of torch.distributed (gloo) are correct",
    "a group which did not finish within 90 s is stuck (the collectives take milliseconds)",
]
DEADLINE = 90


def plan(tier):
    if tier == "quick":
        return dict(n=48, shards=4, case_timeout=240, budget=200, min_evals=80,
                    need_events={"subgroup": 5, "dst_one": 10, "dst_all": 10, "src_one": 10, "src_all": 10, "workers": 10,
                                 "resumed": 60})
    return dict(n=520, shards=4, case_timeout=240, budget=560, min_evals=700,
                need_events={"subgroup": 50, "dst_one": 100, "dst_all": 100, "src_one": 100, "src_all": 100,
                             "workers": 100, "resumed": 500})


def gen(rng, idx, tier):
    world = rng.choice([1, 2, 2, 3, 3, 4, 4, 5])
    ranks = list(range(world))
    layout = rng.choice(["whole", "whole_group", "contig", "strided", "random", "random"])
    if layout in ("whole", "whole_group") or world == 1:
        groups = [ranks]
    elif layout == "contig":
        k = rng.randint(1, world - 1)
        groups = [ranks[:k], ranks[k:]]
    elif layout == "strided":
        groups = [ranks[::2], ranks[1::2]]
    else:
        p = ranks[:]
        rng.shuffle(p)
        k = rng.randint(1, world - 1)
        groups = [sorted(p[:k]), sorted(p[k:])]
    out = []
    for g in groups:
        n = len(g)
        W = rng.choice([0, 0, 1, 2])
        while True:
            spec = tes.gen_te(rng, W=W, training=True, restorable=True, allow_err=False, world=n)
            if not spec["kw"]["virtual_epoch_length"]:
                break
        hops = []
        for _ in range(rng.choice([2, 2, 3])):
            dst = rng.choice([None, rng.randrange(n), n - 1])
            src = rng.choice([None, "same", "other", "same"])
            hops.append(dict(
                pre=[rng.choice([0, 0, 1, rng.randint(1, 9)]) for _ in g], post=rng.randint(1, 4), dst=dst, src=src,
                srcr=rng.randrange(n), rt=rng.choice(["none", "pickle", "torch", "file"]),
                delay=[rng.choice([0, 0, 0.05, 0.2]) for _ in range(2 * n)],
            ))
        out.append(dict(ranks=g, spec=spec, hops=hops, default_wc=rng.random() < 0.5,
                        ck=rng.choice([{}, {"checkpoint_every_sec": 0}, {"checkpoint_every_sec": 0.02}])))
    return dict(world=world, layout=layout, groups=out, seed=rng.randrange(1 << 30))


# --- a rank ---------------------------------------------------------------------------------------------------------


class Rank:
    def __init__(self, case, root, rank, pipes_):
        self.case, self.root, self.rank = case, root, rank
        self.out = []  # (kind, details)
        self.ev = []

    def init(self):
        os.environ["GLOO_SOCKET_IFNAME"] = "lo"
        dist.init_process_group("gloo", init_method="file://" + os.path.join(self.root, "store"), rank=self.rank,
                                world_size=self.case["world"])
        self.group = None
        for g in self.case["groups"]:
            if self.case["layout"] != "whole":
                h = dist.new_group(g["ranks"])
            else:
                h = None
            if self.rank in g["ranks"]:
                self.g, self.group = g, h
        self.local = self.g["ranks"].index(self.rank)

    def wcfg(self):
        sp = self.g["spec"]
        if self.g["default_wc"]:
            w = WorkerConfig.default_worker_config(sp["W"], self.group)
            if (w.rank, w.world_size, w.num_workers) != (self.local, len(self.g["ranks"]), sp["W"]):
                self.out.append(("config", f"rank {self.rank}: {w.rank}/{w.world_size} (W={w.num_workers}) for group {self.g['ranks']}"))
            return w
        return WorkerConfig(rank=self.local, world_size=len(self.g["ranks"]), num_workers=sp["W"], data_parallel_group=self.group)

    def run(self, pipe):
        g, n = self.g, len(self.g["ranks"])
        N = sum(h["pre"][self.local] + h["post"] for h in g["hops"]) + g["hops"][-1]["post"] + 4
        # The stream of this rank, uninterrupted
        ld = pipe.loader(g["ck"], self.wcfg())
        s = pipes.Stream(ld)
        want = [fp(x) for x in s.take(N)]
        close_loader(ld)
        pos = 0
        state = None
        for i, h in enumerate(g["hops"] + [None]):
            ld = pipe.loader(g["ck"], self.wcfg())
            if i:
                p = g["hops"][i - 1]
                time.sleep(p["delay"][n + self.local])
                self.restore(ld, p, state)
            s = pipes.Stream(ld)
            k = h["pre"][self.local] if h else g["hops"][-1]["post"] + 2
            got = [fp(x) for x in s.take(k)]
            self.compare(got, want, pos, i, "before the save" if h else "at the end")
            pos += k
            if h is None:
                close_loader(ld)
                break
            time.sleep(h["delay"][self.local])
            state = self.save(ld, h, i)
            # the loader goes on as if nothing had happened
            got = [fp(x) for x in s.take(h["post"])]
            self.compare(got, want, pos, i, "after the save")
            close_loader(ld)

    def compare(self, got, want, pos, hop, when):
        if not got:
            return
        ref = want[pos : pos + len(got)]
        if hop:
            self.ev.append(("resumed", f"{self.case['layout']}:{self.case['world']}:{self.rank}:{hop}:{self.g['spec']['W']}:{pos}"))
        if got != ref:
            j = first_diff(got, ref)
            self.out.append(("stream", f"rank {self.rank} (rank {self.local} of {self.g['ranks']}), hop {hop}, {when}, position {pos}: "
                             f"token {j}: got {short(got[j], 300)}, want {short(ref[j] if j < len(ref) else None, 300)}"))

    def save(self, ld, h, i):
        own = []
        inner = ld.save_state_rank

        def spy(*a, **kw):
            st = inner(*a, **kw)
            own.append(st)
            return st

        ld.save_state_rank = spy
        lst = ld.save_state(h["dst"]) if h["dst"] is not None else ld.save_state()
        del ld.save_state_rank
        if h["dst"] in (None, self.local):
            if not isinstance(lst, list) or len(lst) != len(self.g["ranks"]):
                self.out.append(("list", f"rank {self.rank}: handed out {short(lst, 200)} for {len(self.g['ranks'])} ranks"))
        elif lst is not None:
            self.out.append(("list", f"rank {self.rank} is not the destination {h['dst']}, but got {short(lst, 200)}"))
        self.ev.append(("list", (i, h["dst"], self.local, fp(lst), fp(own[-1]) if own else "?")))
        # hand over for the restore
        if h["src"] is None:
            if h["dst"] is not None or h["rt"] == "file":
                path = os.path.join(self.root, f"state_{self.g['ranks'][0]}_{i}")
                if self.local == (h["dst"] or 0):
                    torch.save(lst, path)
                dist.barrier(self.group)
                return torch.load(path, weights_only=False)
            return self.round(lst, h)
        src = self.src_of(h)
        if h["dst"] is not None and src != h["dst"]:
            path = os.path.join(self.root, f"state_{self.g['ranks'][0]}_{i}")
            if self.local == h["dst"]:
                torch.save(lst, path)
            dist.barrier(self.group)
            return torch.load(path, weights_only=False) if self.local == src else None
        return self.round(lst, h) if self.local == src else None

    def src_of(self, h):
        return h["dst"] if h["src"] == "same" and h["dst"] is not None else h["srcr"]

    def round(self, st, h):
        from harness.resume import roundtrip

        return roundtrip(st, h["rt"])

    def restore(self, ld, h, state):
        if h["src"] is None:
            ld.restore_state(state)
        else:
            ld.restore_state(state, src_rank=self.src_of(h))


def rank_main(case, root, rank, pps):
    os.setsid()
    fh = open(os.path.join(root, f"trace{rank}"), "w")
    faulthandler.dump_traceback_later(DEADLINE - 15, file=fh)
    res = dict(out=[], ev=[], exc=None)
    try:
        r = Rank(case, root, rank, pps)
        r.init()
        try:
            gi = next(i for i, g in enumerate(case["groups"]) if rank in g["ranks"])
            r.run(pps[gi])
        finally:
            res["out"], res["ev"] = r.out, r.ev
        dist.barrier()
    except BaseException:
        import traceback

        res["exc"] = traceback.format_exc()[-2500:]
    with open(os.path.join(root, f"res{rank}.tmp"), "wb") as f:
        pickle.dump(res, f)
    os.rename(os.path.join(root, f"res{rank}.tmp"), os.path.join(root, f"res{rank}"))


def run_case(case, rec):
    reset_globals()
    pps = []
    try:
        for gi, g in enumerate(case["groups"]):
            sub = os.path.join(rec.tmp, f"g{gi}")
            os.makedirs(sub)
            pp = Pipe(g["spec"], sub)
            for r in range(len(g["ranks"])):
                g["spec"]["rank"] = r
                emu_streams(pp, 40)
            pps.append(pp)
    except pipes.Spin:
        rec.ev("degenerate_skipped")
        return
    finally:
        reset_globals()
    pids = {}
    for rank in range(case["world"]):
        pid = os.fork()
        if pid == 0:
            try:
                rank_main(case, rec.tmp, rank, pps)
            finally:
                os._exit(0)
        pids[rank] = pid
    t0 = time.time()
    done = {}
    left = dict(pids)
    excs = {}
    try:
        while left and time.time() - t0 < DEADLINE:
            for rank, pid in list(left.items()):
                p, _ = os.waitpid(pid, os.WNOHANG)
                if p:
                    del left[rank]
                    path = os.path.join(rec.tmp, f"res{rank}")
                    done[rank] = pickle.load(open(path, "rb")) if os.path.exists(path) else None
                    if done[rank] and done[rank]["exc"]:
                        excs[rank] = done[rank]["exc"]
            if excs and time.time() - t0 > 3:
                break  # the others wait for a rank that failed
            time.sleep(0.01)
    finally:
        for rank, pid in pids.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for rank, pid in left.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
    for rank, e in excs.items():
        if "megatron/energon" in e:
            rec.violation("exception", f"rank {rank} failed, {describe(case)}\n{e}")
        elif "Connection" in e or "closed" in e or "gloo" in e:
            continue  # another rank ended
        else:
            raise HarnessError(f"rank {rank}: {e}")
    if left and not excs:
        tr = ""
        for rank in left:
            p = os.path.join(rec.tmp, f"trace{rank}")
            tr += f"--- rank {rank}\n" + (open(p).read()[-900:] if os.path.exists(p) else "")
        rec.violation("deadlock", f"ranks {sorted(left)} did not finish within {DEADLINE} s, {describe(case)}\n{tr}")
        return
    for rank, d in done.items():
        if d is None:
            raise HarnessError(f"rank {rank} ended without a result")
        for kind, msg in d["out"]:
            rec.violation(kind, msg + "\n" + describe(case))
    if excs or rec.violations:
        return
    for g in case["groups"]:
        if case["layout"] != "whole":
            rec.ev("subgroup")
        if g["spec"]["W"]:
            rec.ev("workers")
        lists = {}
        for rank in g["ranks"]:
            for kind, x in done[rank]["ev"]:
                if kind == "resumed":
                    rec.ev("resumed")
                    rec.evaluated(x)
                else:
                    i, dst, local, lst, own = x
                    lists.setdefault(i, {})[local] = (dst, lst, own)
        for i, by in lists.items():
            h = g["hops"][i]
            rec.ev("dst_one" if h["dst"] is not None else "dst_all")
            rec.ev("src_one" if h["src"] is not None else "src_all")
            own = [by[q][2] for q in range(len(g["ranks"]))]
            if "?" in own:
                continue
            for q, (dst, lst, _) in by.items():
                if dst in (None, q):
                    rec.evaluated(f"list:{case['layout']}:{len(own)}:{dst}:{q}:{g['spec']['W']}:{i}")
                    if list(lst[1:]) != own:
                        which = [own.index(x) if x in own else None for x in lst[1:]]
                        rec.violation("list", f"rank {q} of {g['ranks']}: the list holds the states of ranks {which}\n{describe(case)}")
    rec.sample = dict(world=case["world"], groups=[g["ranks"] for g in case["groups"]],
                      hops=[[(h["pre"], h["dst"], h["src"]) for h in g["hops"]] for g in case["groups"]],
                      workers=[g["spec"]["W"] for g in case["groups"]])


def describe(case):
    return "world %d, %s groups: %s" % (
        case["world"], case["layout"],
        "; ".join(f"{g['ranks']} W={g['spec']['W']} " + ", ".join(f"{h['pre']} dst={h['dst']} src={h['src']}/{h['srcr']}" for h in g["hops"]) for g in case["groups"]),
    )
