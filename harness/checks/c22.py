"""C22: sample and batch indexes are unique and consecutive per worker, seeds are per global worker."""
import collections
import json
import os
import pickle
import random

import torch

from megatron.energon import SkipSample, TaskEncoder, WorkerConfig, get_savable_loader, get_train_dataset, get_val_dataset, stateless

from harness import dsgen, emul
from harness.core import HarnessError
from harness.resume import close_loader, reset_globals, roundtrip

PROPERTY = "C22"
LEVEL = "exploration"
RULE = (
    "All user functions of random task encoders (encode_sample, select_samples_to_pack, pack_selected_samples, batch_group_criterion, batch, "
    "encode_batch; with skips, errors and generators, which yield zero to three samples) record the current sample and batch index with the identity of "
    "their input. For each worker and function the indexes of the calls must be w, W+w, 2W+w, ... without gap or repetition (an index which occurs "
    "again must be for the same input: samples in buffers are restored), and the batch index must be (item in production)*W + w. Both continue over save and "
    "resume, at any item, in emulated workers and in real loaders, where item k must carry batch index k. Seeds of all global workers of a topology "
    "are compared with each other, with other topologies and with the initial seeds observed in real workers. An evaluation is one worker's "
    "history; distinct by task encoder and configuration."
)
ASSUMPTIONS = ["user functions depend on their input only", "a validation pass limited by LimitDataset starts over, with all indexes"]
LIMIT = 2500
STAGES = ("enc", "sel", "pack", "crit", "batch", "eb")


def plan(tier):
    need = {"calls": 20000, "enc": 4000, "batch": 1000, "pack": 400, "sel": 100, "crit": 400, "eb": 600, "gen": 300, "skips": 300, "errors": 200,
            "resumed": 90, "replayed": 60, "real": 12, "real_resumed": 8, "seeds": 3000, "seeds_large": 5}
    if tier == "quick":
        return dict(n=420, shards=8, case_timeout=60, budget=200, min_evals=250, need_events=need)
    return dict(n=9000, shards=8, case_timeout=90, budget=560, min_evals=5000, need_events=need)


def gen(rng, idx, tier):
    W = rng.choice([0, 1, 1, 2, 3, 4])
    world = rng.choice([1, 1, 2, 3])
    real = idx % 14 == 0
    if real:
        W = rng.choice([0, 1, 2, 3])
    G = max(W, 1) * world
    dss = []
    for i in range(rng.choice([1, 1, 2])):
        while True:
            shards = dsgen.rand_ds_spec(rng, f"d{i}", max_shards=4, max_per=6)["shards"]
            if sum(shards) >= 3 * G:
                break
        dss.append(dict(name=f"d{i}", shards=shards, kind="text"))

    def beh(gen_ok):
        b = dict(skip=rng.choice([0, 0, 0, 3, 5]), err=rng.choice([0, 0, 0, 4, 7]))
        if gen_ok and rng.random() < 0.3:
            b["gen"] = rng.choice([1, 2, 3])
        return b

    mode = rng.choice(["plain", "plain", "pack", "group"])
    train = rng.random() < 0.75
    bs = rng.choice([1, 2, 3])
    te = dict(enc=beh(True), batch=beh(mode != "group"), eb=beh(True) if rng.random() < 0.6 else None)
    if mode == "pack":
        te["pack"] = beh(False)
        te["sel"] = dict(n=rng.choice([2, 3, 5]), k=rng.choice([1, 2, 3]))
    if mode == "group":
        te["crit"] = dict(beh(False), groups=rng.choice([1, 2, 3]), size=rng.choice([1, 2, 3]))
    return dict(W=W, world=world, rank=rng.randrange(world), dss=dss, te=te, mode=mode, train=train, bs=bs, drop=rng.random() < 0.3,
                shuffle=rng.choice([None, None, 3]), psi=rng.choice([None, 1, 2]), mss=rng.choice([None, 2, 3]), vel=rng.choice([0, 0, 4]),
                n=rng.randint(4, 14), cut=rng.random(), keep=rng.choice(["pickle", "torch", None]), real=real, seed=rng.randrange(1 << 30),
                offset=rng.choice([0, 0, 1, 7]), ck=rng.choice([None, 0.0]))


class Err(Exception):
    pass


def uid(x):
    return getattr(x, "text")


def ident(xs):
    """Short identity of the input: what it consists of."""
    if not isinstance(xs, list):
        xs = [xs]
    return [x.text if hasattr(x, "text") else x["u"] for x in xs]


def decide(b, what, stage):
    h = dsgen.val_of(repr(what) + stage)
    if b.get("skip") and h % b["skip"] == 0:
        return "skip"
    if b.get("err") and (h // 64) % b["err"] == 0:
        return "err"
    return "ok"


class Starved(BaseException):
    """No item for so many calls that none is to come (every batch is skipped)."""


class Log:
    """Records of the user functions: in a list, or a file that all processes append to."""

    def __init__(self, path=None):
        self.path, self.items, self.item = path, [], None

    def add(self, stage, te, what, step=0, verdict=None):
        r = [stage, te.current_sample_index, te.current_batch_index, what, step, verdict, self.item, os.getpid()]
        if self.path is None:
            self.items.append(r)
            if len(self.items) > LIMIT:
                raise Starved()
        else:
            fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            try:
                os.write(fd, (json.dumps(r) + "\n").encode())
            finally:
                os.close(fd)

    def read(self):
        if self.path is None:
            return list(self.items)
        if not os.path.exists(self.path):
            return []
        with open(self.path) as f:
            return [json.loads(x) for x in f]


def make_te(case, log):
    t = case["te"]

    def enter(stage, te, xs):
        what = ident(xs)
        v = decide(t[stage], what, stage)
        log.add(stage, te, what, 0, v)
        if v == "skip":
            raise SkipSample()
        if v == "err":
            raise Err(stage)
        return what

    ns = {}

    if t["enc"].get("gen"):
        def encode_sample(self, s):
            what = enter("enc", self, s)
            text = s.text.split(":")
            base = ":".join(text[:2])
            for j in range(dsgen.val_of(base) % (t["enc"]["gen"] + 1)):
                log.add("enc", self, what, j + 1)
                import copy
                x = copy.copy(s)
                x.text = f"{base}.{j}"
                yield x
            log.add("enc", self, what, 99)
    else:
        def encode_sample(self, s):
            enter("enc", self, s)
            s.text = ":".join(s.text.split(":")[:2])
            return s

    ns["encode_sample"] = stateless(encode_sample)

    if case["mode"] == "pack":
        def select_samples_to_pack(self, xs):
            log.add("sel", self, ident(xs))
            k = t["sel"]["k"]
            return [xs[i : i + k] for i in range(0, len(xs), k)]

        def pack_selected_samples(self, xs):
            enter("pack", self, xs)
            import copy
            x = copy.copy(xs[0])
            x.text = "+".join(y.text for y in xs)
            return x

        ns["select_samples_to_pack"] = select_samples_to_pack
        ns["pack_selected_samples"] = stateless(pack_selected_samples)

    if case["mode"] == "group":
        def batch_group_criterion(self, s):
            enter("crit", self, s)
            return dsgen.val_of(s.text) % t["crit"]["groups"], t["crit"]["size"] if case["bs"] is None else None

        ns["batch_group_criterion"] = batch_group_criterion

    def result(te, xs, what, j=None):
        import copy
        x = copy.copy(xs[0] if isinstance(xs, list) else xs)
        x.text = "{" + ",".join(what) + "}" + ("" if j is None else f".{j}")
        x.idx = getattr(x, "idx", ()) + ((te.current_sample_index, te.current_batch_index),)
        return x

    def mk(stage):
        if t[stage].get("gen"):
            def fn(self, xs):
                what = enter(stage, self, xs)
                for j in range(dsgen.val_of(repr(what)) % (t[stage]["gen"] + 1)):
                    log.add(stage, self, what, j + 1)
                    yield result(self, xs, what, j)
                log.add(stage, self, what, 99)
        else:
            def fn(self, xs):
                what = enter(stage, self, xs)
                return result(self, xs, what)
        return stateless(fn)

    ns["batch"] = mk("batch")
    if t["eb"]:
        ns["encode_batch"] = mk("eb")
    return type("TE", (TaskEncoder,), ns)()


def wcfg(case, rank=None, W=None):
    return WorkerConfig(rank=case["rank"] if rank is None else rank, world_size=case["world"], num_workers=case["W"] if W is None else W, seed_offset=case["offset"])


def mk(case, root, wc, log):
    te = make_te(case, log)
    kw = dict(worker_config=wc, batch_size=None if case["mode"] == "group" and case["bs"] is None else case["bs"], batch_drop_last=case["drop"], task_encoder=te)
    if case["mode"] == "pack":
        kw["packing_buffer_size"] = case["te"]["sel"]["n"]
    if case["train"]:
        return get_train_dataset(os.path.join(root, "m.yaml"), shuffle_buffer_size=case["shuffle"], max_samples_per_sequence=case["mss"],
                                 parallel_shard_iters=case["psi"], virtual_epoch_length=case["vel"] * max(case["W"], 1), **kw)
    return get_val_dataset(os.path.join(root, "m.yaml"), split_part="train", **kw)


class History:
    """The calls of one worker, judged as they come."""

    def __init__(self, rec, w, W, where, batch_checked=True):
        self.rec, self.w, self.W, self.where = rec, w, max(W, 1), where
        self.by_index = {s: {} for s in STAGES}
        self.next = {s: 0 for s in STAGES}
        self.batch_checked = batch_checked

    def feed(self, records):
        rec = self.rec
        for stage, si, bi, what, step, verdict, item, _ in records:
            rec.ev("calls")
            rec.ev(stage)
            if verdict == "skip":
                rec.ev("skips")
            elif verdict == "err":
                rec.ev("errors")
            if step:
                rec.ev("gen")
            at = lambda: f"{stage}({str(what)[:120]}) step {step} of worker {self.w} while item {item} is produced: sample index {si}, batch index {bi}; {self.where}"
            if not isinstance(si, int) or si < 0 or si % self.W != self.w:
                rec.violation("sample-residue", at())
                return False
            c = si // self.W
            known = self.by_index[stage]
            if c in known:
                # the same call again (a generator continues, or a buffered sample is restored)
                if known[c] != what:
                    rec.violation("sample-repeated", f"already used for {str(known[c])[:120]}: {at()}")
                    return False
                if not step:
                    rec.ev("replayed")
                continue
            if step:
                rec.violation("generator-index", f"the index changed within the generator: {at()}")
                return False
            if c != self.next[stage]:
                rec.violation("sample-gap", f"index {self.next[stage] * self.W + self.w} was to follow: {at()}")
                return False
            known[c] = what
            self.next[stage] = c + 1
            if item is not None and self.batch_checked and bi != item * self.W + self.w:
                rec.violation("batch-index", f"should be {item * self.W + self.w}: {at()}")
                return False
        return True


def run_case(case, rec):
    reset_globals()
    try:
        run(case, rec)
    finally:
        reset_globals()


def run(case, rec):
    case = json.loads(json.dumps(case))
    for d in case["dss"]:
        dsgen.make_ds(rec.tmp, d)
    dsgen.write_meta(os.path.join(rec.tmp, "m.yaml"), dict(train=dict(blend=[dict(path=d["name"], weight=1) for d in case["dss"]])))
    cfg = {k: case[k] for k in ("W", "world", "rank", "dss", "te", "mode", "train", "bs", "drop", "shuffle", "psi", "mss", "vel", "n", "cut", "keep")}
    where = str(cfg)
    rec.sample = cfg
    seeds_case(case, rec)
    if case["real"]:
        real_case(case, rec, where)
        return
    for w in range(max(case["W"], 1)):
        try:
            worker_case(case, rec, w, where)
        except Starved:
            rec.ev("starved")
            reset_globals()


def drive(e, log, n):
    """Items of the worker; the log knows which item is in production."""
    out = []
    for _ in range(n):
        log.item = e.index
        x = e.next()
        out.append(x)
        if x is emul.END or x == emul.END:
            break
    return out


def worker_case(case, rec, w, where):
    wc = wcfg(case)
    log = Log()
    e = emul.EmuWorker(mk(case, rec.tmp, wc, log), wc, w)
    h = History(rec, w, case["W"], where)
    rec.evaluated(f"{where}:{w}")
    items = []
    n = case["n"]
    ok = True
    while len(items) < n and ok:
        got = drive(e, log, n - len(items))
        ended = len(got) > 0 and isinstance(got[-1], str)
        items += got[:-1] if ended else got
        ok = h.feed(log.items)
        log.items.clear()
        if ended and (not case["train"] or not items):
            break
        if ended and len(items) < n and not case["vel"]:
            rec.violation("ended", f"training ended; {where}")
            return
    e.close()
    if not ok or not items:
        return
    # the indexes of what is delivered
    seen = collections.Counter()
    for i, x in enumerate(items):
        seen[x.idx[-1]] += 1
        rec.check(x.idx[-1][1] == i * max(case["W"], 1) + w, "delivered-batch-index", lambda: f"item {i} of worker {w} has batch index {x.idx[-1][1]}; {where}")
    # resume
    cut = int(case["cut"] * len(items))
    # not at the end of a pass: see the known finding of C03
    if case["vel"] or not case["train"]:
        return
    log1 = Log()
    e1 = emul.EmuWorker(mk(case, rec.tmp, wc, log1), wc, w)
    drive(e1, log1, cut)
    st, (index, sysrng) = e1.save()
    h2 = History(rec, w, case["W"], "resumed after %d: %s" % (cut, where))
    if not h2.feed(log1.items):
        return
    e1.close()
    log2 = Log()
    ds2 = mk(case, rec.tmp, wc, log2)
    merged = ds2.merge_states([roundtrip(st, case["keep"]) if i == w else None for i in range(max(case["W"], 1))])
    e2 = emul.EmuWorker(ds2, wc, w, state=merged, index=index, sysrng=sysrng)
    drive(e2, log2, len(items) - cut)
    rec.ev("resumed")
    if not h2.feed(log2.items):
        return
    rec.check(h2.next == h.next and h2.by_index == h.by_index, "resume",
              lambda: f"after {len(items)} items the indexes are {h2.next} instead of {h.next} when resumed after {cut}; {where}")


def real_case(case, rec, where):
    """The indexes in the processes of a real loader, continued by a second one from the saved state."""
    if not case["train"]:
        case["train"] = True
    case["vel"] = 0
    W = max(case["W"], 1)
    logp = os.path.join(rec.tmp, "log")
    n = case["n"] + 2 * W
    for w in range(W):
        log = Log()
        e = emul.EmuWorker(mk(case, rec.tmp, wcfg(case), log), wcfg(case), w)
        try:
            for _ in range(n // W + 4):
                log.items.clear()
                e.next()
        except Starved:
            rec.ev("starved")
            reset_globals()
            return
        finally:
            e.close()
    cut = int(case["cut"] * n)
    ck = {} if case["ck"] is None else dict(checkpoint_every_sec=case["ck"], checkpoint_every_min_n_samples=2 * W)
    ld = get_savable_loader(mk(case, rec.tmp, wcfg(case), Log(logp + "0")), **ck)
    try:
        it = iter(ld)
        items = [next(it) for _ in range(cut)]
        st = ld.save_state_rank() if cut else None
        rest = [next(it) for _ in range(n - cut)]
    finally:
        close_loader(ld)
    rec.ev("real")
    rec.evaluated(where + "real")
    for k, x in enumerate(items + rest):
        rec.check(x.idx[-1][1] == k, "loader-batch-index", lambda: f"item {k} has batch index {x.idx[-1][1]}; {where}")
    judge_files(case, rec, [logp + "0"], W, where)
    if st is None:
        return
    st = roundtrip(st, case["keep"] or "pickle")
    ld = get_savable_loader(mk(case, rec.tmp, wcfg(case), Log(logp + "1")), **ck)
    try:
        ld.restore_state_rank(st)
        it = iter(ld)
        more = [next(it) for _ in range(n - cut)]
    finally:
        close_loader(ld)
    rec.ev("real_resumed")
    for k, x in enumerate(items + more):
        rec.check(x.idx[-1][1] == k, "loader-batch-index", lambda: f"item {k}, resumed after {cut}, has batch index {x.idx[-1][1]}; {where}")
    # a batch which is restored is made again, while a later item is in production: its batch index is not compared

    def indexes(xs):
        return [([i[0] for i in x.idx], x.idx[-1]) for x in xs]

    rec.check(indexes(more) == indexes(rest), "resume", lambda: f"resumed after {cut}: {indexes(more)} instead of {indexes(rest)}; {where}")
    judge_files(case, rec, [logp + "1"], W, where + " resumed", fresh=False)


def judge_files(case, rec, paths, W, where, fresh=True):
    """Per process: one worker; indexes of the calls."""
    by_pid = collections.defaultdict(list)
    for p in paths:
        for r in Log(p).read():
            by_pid[r[7]].append(r)
    ws = {}
    for pid, rs in by_pid.items():
        res = {r[1] % W for r in rs} | {r[2] % W for r in rs}
        rec.check(len(res) == 1, "process-residue", lambda: f"process {pid} uses the indexes of workers {res}; {where}")
        if len(res) != 1:
            return
        w = res.pop()
        rec.check(w not in ws, "worker-twice", lambda: f"two processes use the indexes of worker {w}; {where}")
        ws[w] = pid
        h = History(rec, w, W, where)
        if not fresh:
            for s in STAGES:
                # the calls continue at some index: what was in the buffers comes first
                idx = [r[1] // W for r in rs if r[0] == s and not r[4]]
                if idx:
                    h.next[s] = min(idx)
        h.feed(rs) if fresh else feed_any(h, rs)


def feed_any(h, rs):
    """After a resume: buffers are restored in any order, thus only uniqueness and no gaps in the end."""
    for stage in STAGES:
        seen = {}
        for s, si, bi, what, step, v, item, _ in rs:
            if s != stage:
                continue
            h.rec.ev("calls")
            if si in seen and seen[si] != what:
                h.rec.violation("sample-repeated", f"{stage} index {si} is used for {seen[si]} and {what}; {h.where}")
            seen[si] = what
    return True


def seeds_case(case, rec):
    """Distinct over all global workers, equal for equal global workers."""
    rng = random.Random(case["seed"])
    G = rng.choice([1, 4, 12, 24, 60, 240])
    by_topology = []
    divs = [d for d in range(1, G + 1) if G % d == 0]
    for world in {1, G, rng.choice(divs), rng.choice(divs)}:
        W = G // world
        seeds = []
        for r in range(world):
            wc = WorkerConfig(rank=r, world_size=world, num_workers=W, seed_offset=case["offset"])
            for k in range(W):
                s = wc.worker_seed(k)
                with emul.as_worker(k, W):
                    wc.worker_activate(0)
                    try:
                        if wc.worker_seed() != s or wc.global_worker_id() != r * W + k:
                            rec.violation("seed-override", f"worker {r}:{k} of {world}x{W}: {wc.worker_seed()} inside, {s} outside")
                    finally:
                        wc.worker_deactivate()
                seeds.append(s)
                rec.ev("seeds")
        rec.check(len(set(seeds)) == len(seeds), "seed-collision", lambda: f"{world}x{W}, offset {case['offset']}: {len(seeds) - len(set(seeds))} equal seeds")
        by_topology.append((world, seeds))
    for world, seeds in by_topology[1:]:
        rec.check(seeds == by_topology[0][1], "seed-topology", lambda: f"seeds of {world} ranks differ from those of {by_topology[0][0]} ranks for {G} workers")
    if rng.random() < 0.1:
        # a large run
        big = {}
        for r in range(256):
            wc = WorkerConfig(rank=r, world_size=256, num_workers=8, seed_offset=case["offset"])
            for k in range(8):
                s = wc.worker_seed(k)
                if s in big:
                    rec.violation("seed-collision", f"workers {big[s]} and {r}:{k} of 256x8 have the same seed, offset {case['offset']}")
                    return
                big[s] = f"{r}:{k}"
        rec.ev("seeds_large")
    o = WorkerConfig(rank=0, world_size=1, num_workers=G, seed_offset=case["offset"] + 1)
    other = [o.worker_seed(k) for k in range(G)]
    rec.check(set(other).isdisjoint(by_topology[0][1]) or G > 200, "seed-offset", lambda: f"seed_offset {case['offset'] + 1} and {case['offset']} share seeds")
