"""Taps: transparent datasets of the harness between all nodes of a pipeline, which log every iteration, item and end;
the user functions log their calls. `judge` is the offline checker over such a log: one small state machine per node."""
import collections

from megatron.energon.wrappers.base import BaseSingleWrapperDataset

from harness import pipes
from harness.fp import short


class Tap(BaseSingleWrapperDataset):
    def __init__(self, nid, dataset, worker_config):
        super().__init__(dataset, worker_config=worker_config)
        self.nid = nid

    def __len__(self):
        return len(self.dataset)

    def __iter__(self):
        pipes.log("iter", self.nid)
        pipes.Monitor.read()
        for x in self.dataset:
            pipes.Monitor.read()
            pipes.log("out", self.nid, pipes.ident(x))
            yield x
        pipes.log("end", self.nid)

    def config(self):
        return self.dataset.config()


def number(node):
    for i, n in enumerate(pipes.walk(node)):
        n["id"] = i
    return node


class recording:
    """Builds done and events seen within are recorded."""

    def __enter__(self):
        self.log = pipes.LOG = []
        self.taps = {}

        def wrap(node, ds, wcfg):
            self.taps[node["id"]] = t = Tap(node["id"], ds, wcfg)
            return t

        pipes.WRAP = wrap
        return self

    def __exit__(self, *a):
        pipes.LOG = None
        pipes.WRAP = None


def sids(n):
    s = []
    if "beh" in n:
        s.append(n["beh"]["sid"])
    if "gk" in n:
        s.append(n["gk"]["sid"])
    if n["t"] == "mix":
        s.append(n["sid"])
    return s


def kids(n):
    return n.get("kids", []) + ([n["kid"]] if "kid" in n else [])


def share(n, W, wid):
    if W <= 1:
        return n
    return n // W + (1 if wid < n % W else 0)


class Bad(Exception):
    def __init__(self, mech, msg):
        super().__init__(msg)
        self.mech = mech


def need(cond, mech, msg, *a):
    if not cond:
        raise Bad(mech, msg + " " + short(a, 500) if a else msg)


class Mach:
    """One run (iteration) of a node. Events: (kind, ...) in order; own outputs are 'OUT', the end 'END'; items, starts
    and ends of kid j are ('in', j, ident), ('kiter', j), ('kend', j); the rest comes from the user functions."""

    def __init__(self, node, W, wid):
        self.n, self.W, self.wid = node, W, wid
        self.kend = set()
        self.expect_handler = None
        self.q = []  # results of user functions to be emitted
        self.inq = []
        self.start()

    def start(self):
        pass

    def feed(self, ev):
        k = ev[0]
        if k == "handler":
            need(self.expect_handler is not None, "handler", "error handler called without an error (or again)", ev[2])
            need(ev[2] == self.expect_handler, "handler", "error handler got other samples than the failed function:", ev[2], self.expect_handler)
            self.expect_handler = None
            return
        need(self.expect_handler is None, "handler", "the error handler was not told about a failed function")
        if k == "OUT":
            self.out(ev[1])
        elif k == "END":
            need(not self.q, "lost", "result of the user function was not delivered", self.q)
            self.end()
        elif k == "in":
            need(not self.q, "lost", "result of the user function was not delivered", self.q)
            self.inp(ev[2], ev[1])
        elif k == "kiter":
            self.kiter(ev[1])
        elif k == "kend":
            self.kend.add(ev[1])
        elif k == "ret":
            self.q.append(ev[2])
        else:
            self.user(ev)

    def out(self, x):
        need(self.q, "extra", "item which is no result of the user function", x)
        y = self.q.pop(0)
        need(x == y, "order", "item is not the next result of the user function", x, y)

    def kiter(self, j):
        pass

    def user(self, ev):
        pass

    def end(self):
        pass

    def fail(self, inp):
        self.expect_handler = inp


class MMap(Mach):
    pending = None

    def inp(self, x, j):
        need(self.pending is None, "lost", "an input was not given to the user function", self.pending)
        self.pending = x

    def user(self, ev):
        if ev[0] == "call":
            need(ev[2] == (self.pending,), "input", "the user function was called with something else than the next input", ev[2], self.pending)
            self.pending = None
            self.cur = ev[2]
        elif ev[0] == "err":
            self.fail(self.cur)

    def end(self):
        need(self.pending is None, "lost", "the last input was not given to the user function")
        need(0 in self.kend, "early", "ended before its input did")


class MFilter(MMap):
    def user(self, ev):
        super().user(ev)
        if ev[0] == "filter" and ev[2]:
            self.q.append(self.cur[0])


class MIdent(Mach):
    def inp(self, x, j):
        self.q.append(x)

    def end(self):
        need(0 in self.kend, "early", "ended before its input did")


class MBatch(Mach):
    def start(self):
        self.bs = self.n["bs"]
        self.drop = self.n.get("drop", False)

    def inp(self, x, j):
        need(len(self.inq) < self.bs, "size", "read on although a full batch was there", len(self.inq))
        self.inq.append(x)

    def user(self, ev):
        if ev[0] == "call":
            need(ev[2] == tuple(self.inq), "content", "the batch is not made of the inputs read since the last one", len(ev[2]), len(self.inq), ev[2], self.inq)
            if len(self.inq) != self.bs:
                need(0 in self.kend and not self.drop and self.inq, "size", f"batch of {len(self.inq)} instead of {self.bs}; drop_last={self.drop}")
            self.cur = ev[2]
            self.inq = []
        elif ev[0] == "err":
            self.fail(self.cur)

    def end(self):
        need(0 in self.kend, "early", "ended before its input did")
        need(not self.inq or (self.drop and len(self.inq) < self.bs), "lost", f"{len(self.inq)} inputs were never put into a batch; drop_last={self.drop}")


class MGroup(Mach):
    def start(self):
        self.buckets = collections.OrderedDict()
        self.size = {}
        self.pending = None
        self.full = None
        self.cur = None

    def inp(self, x, j):
        need(self.pending is None, "lost", "an input was not given to the group criterion")
        need(self.full is None, "size", "read on although a group was full")
        self.pending = x

    def user(self, ev):
        if ev[1] == self.n["gk"]["sid"]:
            if ev[0] == "call":
                need(ev[2] == (self.pending,), "input", "group criterion called with another sample than the next", ev[2])
                self.kcur = self.pending
                self.pending = None
            elif ev[0] == "err":
                self.fail((self.kcur,))
            elif ev[0] == "key":
                g = ev[2]
                n = self.n["bs"] if self.n["bs"] is not None else ev[3]
                b = self.buckets.setdefault(g, [])
                self.size[g] = n
                b.append(self.kcur)
                if len(b) >= n:
                    self.full = g
            return
        if ev[0] == "call":
            if self.full is not None:
                want = tuple(self.buckets.pop(self.full))
                need(ev[2] == want, "content", "group batch is not the full group in arrival order", ev[2], want)
                self.full = None
            else:
                need(0 in self.kend and not self.n["drop"], "size", "incomplete group batched", len(ev[2]))
                g = [g for g, b in self.buckets.items() if tuple(b) == ev[2]]
                need(g, "content", "batch at the end is none of the remaining groups", ev[2], list(self.buckets.values()))
                self.buckets.pop(g[0])
            self.cur = ev[2]
        elif ev[0] == "err":
            self.fail(self.cur)

    def end(self):
        need(0 in self.kend, "early", "ended before its input did")
        need(self.pending is None and self.full is None, "lost", "the last input was not processed")
        need(not self.buckets or self.n["drop"], "lost", "groups left at the end", list(self.buckets.values()))


class MPack(Mach):
    def start(self):
        self.R, self.P = [], collections.deque()
        self.cur = None

    def inp(self, x, j):
        self.R.append(x)
        held = len(self.R) + sum(map(len, self.P))
        need(held <= self.n["n"], "size", f"{held} samples buffered, buffer size {self.n['n']}")

    def user(self, ev):
        k = ev[0]
        if k == "precall":
            need(ev[2] == tuple(self.R), "content", "the selection function did not get the samples read since the last time", ev[2], self.R)
            need(not self.P, "order", "selected again although packs are left")
            need(len(self.R) == self.n["n"] or 0 in self.kend, "size", f"selection from {len(self.R)} samples, buffer size {self.n['n']}, before the end")
            self.cur = ev[2]
            self.R = []
        elif k == "prepacks":
            self.P.extend(ev[2])
        elif k == "preerr":
            self.fail(self.cur)
        elif k == "call":
            need(self.P, "extra", "pack which was not selected", ev[2])
            want = self.P.popleft()
            need(ev[2] == want, "content", "pack is not the next selected group", ev[2], want)
            self.cur = ev[2]
        elif k == "err":
            self.fail(self.cur)

    def end(self):
        need(0 in self.kend, "early", "ended before its input did")
        need(not self.R, "lost", "samples were never given to the selection function", self.R)
        need(not self.P, "lost", "selected packs were never packed", list(self.P))


class MShuffle(Mach):
    def start(self):
        self.c = collections.Counter()

    def inp(self, x, j):
        self.c[x] += 1
        need(sum(self.c.values()) <= self.n["n"], "size", "shuffle buffer exceeds its size")

    def out(self, x):
        need(self.c[x] > 0, "extra", "item which is not in the buffer", x)
        self.c[x] -= 1

    def end(self):
        need(0 in self.kend, "early", "ended before its input did")
        need(sum(self.c.values()) == 0, "lost", "items left in the buffer", +self.c)


class MLimit(MIdent):
    def start(self):
        self.cnt = 0
        self.lim = share(self.n["n"], self.W, self.wid)
        self.starts = 0

    def kiter(self, j):
        self.starts += 1
        need(self.starts == 1, "pass", "restarted its input within a pass")

    def inp(self, x, j):
        self.cnt += 1
        need(self.cnt <= self.lim, "count", f"item {self.cnt} fetched, the limit of this worker is {self.lim}")
        self.q.append(x)

    def end(self):
        need(self.cnt == self.lim or 0 in self.kend, "count", f"ended after {self.cnt} items, limit {self.lim}, input not at its end")


class MRepeat(MIdent):
    def start(self):
        self.runs = 0
        self.open = False

    def kiter(self, j):
        need(not self.open or 0 in self.kend, "pass", "restarted its input within a pass")
        self.kend.discard(0)
        self.open = True
        self.runs += 1
        need(self.n["n"] is None or self.runs <= self.n["n"], "count", f"repetition {self.runs} of {self.n['n']}")

    def end(self):
        need(0 in self.kend, "early", "ended before its input did")
        need(self.runs == self.n["n"], "count", f"ended after {self.runs} repetitions of {self.n['n']}")


class MConcat(MIdent):
    def start(self):
        self.cur = -1

    def kiter(self, j):
        need(j == self.cur + 1, "order", f"dataset {j} started after dataset {self.cur}")
        need(self.cur < 0 or self.cur in self.kend, "lost", f"dataset {self.cur} was left before its end")
        self.cur = j

    def end(self):
        need(len(self.kend) == len(self.n["kids"]), "lost", f"ended after {len(self.kend)} of {len(self.n['kids'])} datasets")


class MBlend(MIdent):
    def start(self):
        self.run = set()

    def kiter(self, j):
        need(self.n["w"][j] > 0, "weight", f"dataset {j} of weight {self.n['w'][j]} was started")
        need(j not in self.run or j in self.kend, "pass", f"dataset {j} was restarted before its end")
        self.run.add(j)
        self.kend.discard(j)

    def end(self):
        raise Bad("end", "a blend never ends")


MACH = dict(map=MMap, itermap=MMap, filter=MFilter, gc=MIdent, log=MIdent, batch=MBatch, mix=MBatch, group=MGroup, pack=MPack,
            shuffle=MShuffle, limit=MLimit, repeat=MRepeat, concat=MConcat, blend=MBlend)


def judge(node, log, W, wid, rec, report, cut_by_exception=False):
    """Runs the machines over the log. report(node type, mech, message)."""
    sid_of, owner = {}, {}
    for n in pipes.walk(node):
        for s in sids(n):
            sid_of[s] = n["id"]
        for j, k in enumerate(kids(n)):
            owner[k["id"]] = (n["id"], j)
    nodes = {n["id"]: n for n in pipes.walk(node)}
    cur = {}
    dead = set()
    ep = {i: dict(outs=0, ins=0, run=0, q=[]) for i, n in nodes.items() if n["t"] == "epoch"}
    passes = collections.defaultdict(list)

    def feed(i, ev):
        n = nodes[i]
        if i in dead:
            return
        rec.ev("tap:" + n["t"])
        try:
            if n["t"] == "epoch":
                feed_epoch(n, ep[i], ev)
                return
            if n["t"] == "src":
                return
            m = cur.get(i)
            if m is None:
                raise Bad("start", f"event before the node was iterated: {ev}")
            m.feed(ev)
        except Bad as b:
            dead.add(i)
            report(n["t"], f"{n['t']}:{b.mech}", f"node {n['id']} {n['t']} {({k: v for k, v in n.items() if k not in ('kid', 'kids')})}, worker {wid}/{W}: {b}")

    def feed_epoch(n, e, ev):
        lim = share(n["n"], W, wid)
        if ev[0] == "in":
            need(not e["q"], "lost", "item of the input was not delivered", e["q"])
            e["q"].append(ev[2])
        elif ev[0] == "OUT":
            need(e["q"], "extra", "item which does not come from the input", ev[1])
            y = e["q"].pop(0)
            need(y == ev[1], "order", "item is not the next one of the input", y, ev[1])
            e["run"] += 1
            need(e["run"] <= lim, "count", f"item {e['run']} of an epoch of {lim}")
        elif ev[0] == "kiter":
            need(not e.get("open"), "restart", "the input was restarted before its end")
            e["open"] = True
        elif ev[0] == "kend":
            e["open"] = False
        elif ev[0] == "END":
            need(e["run"] == lim, "count", f"epoch of {e['run']} items instead of {lim}")
            need(not e["q"], "lost", "item of the input was not delivered", e["q"])
            e["run"] = 0

    for ev in log:
        k = ev[0]
        if k in ("iter", "out", "end"):
            i = ev[1]
            n = nodes[i]
            if k == "iter":
                if n["t"] in MACH:
                    cur[i] = MACH[n["t"]](n, W, wid)
                if i in owner:
                    p, j = owner[i]
                    if nodes[p]["t"] in MACH or nodes[p]["t"] == "epoch":
                        feed(p, ("kiter", j))
                passes[i].append([[], False])
            elif k == "out":
                feed(i, ("OUT", ev[2]))
                passes[i][-1][0].append(ev[2])
                if i in owner:
                    p, j = owner[i]
                    feed(p, ("in", j, ev[2]))
            else:
                feed(i, ("END",))
                passes[i][-1][1] = True
                if nodes[i]["t"] == "limit":
                    # The limit resets everything below it, so epochs start over there
                    for d in pipes.walk(nodes[i]):
                        if d["id"] in ep:
                            ep[d["id"]].update(open=False, run=0, q=[])
                if i in owner:
                    p, j = owner[i]
                    feed(p, ("kend", j))
        else:
            i = sid_of[ev[1]]
            feed(i, ev)
    # Each pass of a limit starts over
    for i, ps in passes.items():
        if nodes[i]["t"] == "limit":
            done = [[x[0] for x in p] for p, ended in ps if ended]
            for p in done[1:]:
                rec.ev("limit_pass_again")
                if p != done[0]:
                    report("limit", "limit:first", f"limit {nodes[i]['n']}: a later pass gave other items than the first: {short(p)} / {short(done[0])}")
    return passes


def drive(case, rec, types, n=90, fatal_ok=False):
    """Runs every worker of the case's pipeline, tapped, and judges the nodes of the given types.
    Returns per worker (passes of each node, tokens, dataset length)."""
    from megatron.energon.errors import FatalSampleError

    from harness import emul
    from harness.resume import END, reset_globals

    spec = case["spec"]
    node = number(spec["node"])
    paths = pipes.make_data(spec, rec.tmp)
    res = []
    for op in pipes.ops_of(node):
        rec.ev("op:" + op)
    for wid in range(max(spec["W"], 1)):
        reset_globals()
        w = pipes.wcfg_of(spec)
        toks = []
        fatal = None
        spin = False
        with recording() as r:
            log = r.log
            ds = pipes.build(node, paths, w)
            e = emul.EmuWorker(ds, w, wid)
            try:
                ends = 0
                while len(toks) < n and ends < 4:
                    x = e.next()
                    toks.append(END if x == END else pipes.ident(x))
                    ends += x == END
            except pipes.Spin:
                rec.ev("spin")
                spin = True
            except FatalSampleError as ex:
                if not fatal_ok:
                    raise
                fatal = ex
            except RuntimeError as ex:
                if "did not yield any packs" not in str(ex):
                    raise
                rec.ev("pack_gave_up")
                spin = True
            except AssertionError as ex:
                if "infinitely" not in str(ex) and "all empty" not in str(ex):
                    raise
                spin = True
        rec.arm()

        def report(t, mech, msg):
            if t in types:
                rec.violation(mech, msg)
            else:
                rec.ev("other_node_reported")

        passes = judge(node, log, max(spec["W"], 1), wid, rec, report)
        for nd in pipes.walk(node):
            if nd["t"] in types and passes.get(nd["id"]):
                ps = passes[nd["id"]]
                rec.evaluated((nd["t"], case["seed"] % 97, len(ps), sum(e for _, e in ps)))
                rec.ev("items:" + nd["t"], sum(len(p) for p, _ in ps))
                rec.ev("complete_passes:" + nd["t"], sum(bool(e) for _, e in ps))
        res.append(dict(passes=passes, toks=toks, fatal=fatal, log=log, ds=ds, spin=spin, wcfg=w, taps=r.taps))
    reset_globals()
    return node, res
