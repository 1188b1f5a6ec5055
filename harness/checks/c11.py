"""C11: a retrying stream returns the true bytes or fails; never wrong data."""
import os
import random

from harness import tars
from harness.core import HarnessError
from harness.fp import short

PROPERTY = "C11"
LEVEL = "exploration"
RULE = (
    "Random operation sequences (reads of all kinds of lengths, seeks of all modes, tell) on the retrying stream over a "
    "storage that fails as scheduled: errors of several types when opening, seeking, reading (also after consuming data) "
    "and closing, short reads, early ends of file; transient (bounded consecutive failures, any number in total) or "
    "persistent. The oracle compares each result and position with the stored bytes. A part of the cases reads shards "
    "through the whole indexed tar reader over that storage. An evaluation is one operation compared; distinct by case and "
    "operation."
)
ASSUMPTIONS = ["failures show as OSError from open/seek/read/close of the storage's file object, or as reads shorter than requested"]

ERRORS = [IOError("injected"), ConnectionResetError("injected"), TimeoutError("injected"), BrokenPipeError("injected"), OSError(5, "injected")]


def plan(tier):
    need = {"read_compared": 8000, "faults:read": 1500, "faults:short": 1500, "faults:open": 150, "faults:eof": 300, "faults:partial": 300,
            "persistent_raised": 100, "recovered_after_raise": 60, "tar_samples": 400, "seeks": 2000, "many_faults_one_read": 100}
    if tier == "quick":
        return dict(n=1500, shards=10, case_timeout=30, budget=120, min_evals=10000, need_events=need)
    return dict(n=40000, shards=10, case_timeout=30, budget=560, min_evals=200000, need_events=need)


class Storage:
    """What the faulty files of one path share: the schedule of faults."""

    def __init__(self, rng, rec, profile):
        self.rng, self.rec, self.p = rng, rec, profile
        self.row = 0  # consecutive failures
        self.total = 0
        self.dead = False
        self.opened = 0

    def fault(self, kind):
        """Raise / report a fault now?"""
        if self.dead:
            self.total += 1
            return True
        if self.row < self.p["max_row"] and self.rng.random() < self.p.get(kind, 0):
            self.row += 1
            self.total += 1
            self.rec.ev("faults:" + kind)
            return True
        return False

    def error(self):
        return self.rng.choice(ERRORS)


class FaultyFile:
    def __init__(self, st, f):
        self.st, self.f = st, f

    def read(self, n=-1):
        st = self.st
        if st.fault("read"):
            raise st.error()
        if n is not None and n != 0 and not st.dead:
            if st.fault("partial"):
                # The data is consumed, and gets lost
                self.f.read(st.rng.randint(1, 2000))
                raise st.error()
            if st.fault("eof"):
                return b""
        elif n == 0:
            return self.f.read(0)
        if st.rng.random() < st.p["short"]:
            st.rec.ev("faults:short")
            rest = self.f.read(n)
            if len(rest) > 1:
                k = st.rng.choice([1, len(rest) - 1, st.rng.randint(1, len(rest) - 1)])
                self.f.seek(k - len(rest), 1)
                rest = rest[:k]
        else:
            rest = self.f.read(n)
        if rest:
            st.row = 0
        return rest

    def seek(self, o, whence=0):
        if self.st.fault("seek"):
            raise self.st.error()
        return self.f.seek(o, whence)

    def tell(self):
        return self.f.tell()

    def close(self):
        self.f.close()
        if self.st.fault("close"):
            raise self.st.error()

    def readable(self):
        return True

    def seekable(self):
        return True

    @property
    def closed(self):
        return self.f.closed

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


STORAGES = {}


def setup(scratch):
    """Lets EPath.open return faulty files for the registered paths."""
    from megatron.energon.epathlib import EPath

    orig = EPath.open

    def open_(self, mode="r", *a, **kw):
        st = STORAGES.get(str(self))
        if st is None:
            return orig(self, mode, *a, **kw)
        if st.armed and st.fault("open"):
            raise st.error()
        st.opened += 1
        f = orig(self, mode, *a, **kw)
        return FaultyFile(st, f) if st.armed else f

    EPath.open = open_


def gen(rng, idx, tier):
    prof = dict(max_row=rng.choice([1, 2, 4]), short=rng.choice([0, 0.2, 0.7, 0.95]))
    for k, hi in [("read", 0.5), ("partial", 0.3), ("eof", 0.3), ("open", 0.5), ("seek", 0.3), ("close", 0.5)]:
        if rng.random() < 0.6:
            prof[k] = rng.choice([hi / 5, hi, 1.0 if k != "close" else hi])
    case = dict(seed=rng.randrange(1 << 30), prof=prof, size=rng.choice([0, 1, 5, 100, 511, 512, 4096, 20000, 70000]))
    if idx % 6 == 5:
        case["tar"] = [tars.gen_tar(rng) for _ in range(2)]
    elif idx % 6 == 4:
        case["persistent"] = True
    return case


def run_case(case, rec):
    rng = random.Random(case["seed"])
    if case.get("tar"):
        return run_tar(case, rec, rng)
    from megatron.energon.epathlib import EPath
    from megatron.energon.retry_stream import RetryReadStream

    data = tars.blob(str(case["seed"]), case["size"])
    path = os.path.join(rec.tmp, "f.bin")
    with open(path, "wb") as f:
        f.write(data)
    ep = EPath(path)
    st = STORAGES[str(ep)] = Storage(rng, rec, case["prof"])
    st.armed = True
    try:
        N = len(data)
        pos = 0
        s = RetryReadStream(ep)
        try:
            for k in range(rng.randint(5, 40)):
                op = rng.random()
                if case.get("persistent"):
                    st.dead = rng.random() < 0.3
                rec.evaluated((case["seed"], k))
                if op < 0.25:
                    whence = rng.choice([0, 0, 1, 2])
                    target = rng.choice([0, N, rng.randint(0, N), max(0, N - 1), pos])
                    off = {0: target, 1: target - pos, 2: target - N}[whence]
                    got = s.seek(off, whence)
                    rec.ev("seeks")
                    pos = target
                    if got != target or s.tell() != target:
                        rec.violation("stream-seek", f"op {k}: seek({off}, {whence}) of {N} bytes returned {got}, tell() {s.tell()}, expected {target}")
                        return
                    continue
                n = rng.choice([-1, 0, 1, 2, 3, 10, 100, 512, 513, N, N + 5, max(N - pos, 0), max(N - pos - 1, 0)])
                want = data[pos:] if n < 0 else data[pos : pos + n]
                t0 = st.total
                dead = st.dead
                try:
                    got = s.read(n)
                except OSError as e:
                    if not dead:
                        rec.violation("stream-transient", f"op {k}: read({n}) at {pos} of {N} raised {e!r} after {st.total - t0} failures, at most {st.p['max_row']} in a row")
                        return
                    rec.ev("persistent_raised")
                    if st.total - t0 > 1000:
                        rec.violation("stream-limit", f"op {k}: {st.total - t0} attempts for one read")
                    # Data may be gone, but never silently: tell() says where the next read starts
                    p = s.tell()
                    rec.check(pos <= p <= pos + len(want), "stream-position", f"op {k}: position {p} after failed read({n}) at {pos}")
                    pos = p
                    st.dead = False
                    continue
                if st.total - t0 > 10:
                    rec.ev("many_faults_one_read")
                rec.ev("read_compared")
                if case.get("persistent") and st.total:
                    rec.ev("recovered_after_raise")
                if dead and st.total > t0 and got != want:
                    rec.violation("stream-data", f"op {k}: read({n}) at {pos} of {N} from failing storage returned {short(got)}")
                    return
                if got != want or type(got) is not bytes:
                    rec.violation("stream-data", f"op {k}: read({n}) at {pos} of {N} returned {short(got)} ({len(got) if got is not None else None} bytes), expected {short(want)} ({len(want)} bytes); faults {st.total - t0}")
                    return
                pos += len(want)
                if s.tell() != pos:
                    rec.violation("stream-position", f"op {k}: tell() {s.tell()} after read({n}), expected {pos}")
                    return
            st.dead = False
        finally:
            try:
                s.close()
            except OSError:
                pass  # not covered: no data involved
        rec.sample = dict(size=N, faults=st.total, opened=st.opened, profile=case["prof"])
    finally:
        del STORAGES[str(ep)]


def run_tar(case, rec, rng):
    from megatron.energon.epathlib import EPath
    from megatron.energon.flavors.webdataset.prepare import WebdatasetPreparator

    from harness import emul
    from harness.checks import c10

    sts, models = [], []
    prof = dict(case["prof"])
    # Opening, seeking and reading outside of the stream (sizes, index, magic) is not retried
    prof.pop("open", None), prof.pop("close", None)
    try:
        for s, spec in enumerate(case["tar"]):
            p = os.path.join(rec.tmp, f"data-{s}.tar")
            tars.make(p, spec, tag=f"{s}:")
            models.append(tars.model(spec["members"], tag=f"{s}:"))
            st = Storage(rng, rec, prof)
            st.armed = False
            STORAGES[str(EPath(p))] = st
            sts.append(st)
        WebdatasetPreparator.prepare_dataset(
            EPath(rec.tmp), [f"data-{s}.tar" for s in range(len(models))], split_parts_ratio=[("train", 1.0)], workers=1, tar_index_only=True
        )
        import megatron.energon.flavors.webdataset.itar as itar

        orig = itar.RetryReadStream

        class Armed(orig):
            def __init__(self, path):
                super().__init__(path)
                self._st = STORAGES.get(str(path))

            def read(self, n=-1):
                return self._on(super().read, n)

            def seek(self, *a):
                return self._on(super().seek, *a)

            def _on(self, fn, *a):
                if self._st is None:
                    raise HarnessError("unregistered path")
                self._st.armed = True
                try:
                    return fn(*a)
                finally:
                    self._st.armed = False

        itar.RetryReadStream = Armed
        try:
            slices = []
            for s, m in enumerate(models):
                o = rng.randrange(len(m))
                slices.append((s, o, rng.randint(1, len(m) - o)))
            wc, ds = c10.make_loader(case, rec.tmp, models, 0, [slices], None, [])
            drv = emul.EmuWorker(ds, wc, 0)
            want = [c10.expected(models, s, i, None) for s, o, c in slices for i in range(o, o + c)]
            for i, w in enumerate(want):
                x = drv.next()
                if x is emul.END:
                    rec.violation("tar-missing", f"{slices}: ended after {i} of {len(want)} samples")
                    return
                rec.ev("tar_samples")
                if not c10.compare(rec, c10.observed(x), w, f"faulty {slices}", (case["seed"], i)):
                    return
            rec.check(drv.next() is emul.END, "tar-extra", "additional sample")
        finally:
            itar.RetryReadStream = orig
        rec.sample = dict(samples=len(want), faults=[s.total for s in sts])
    finally:
        STORAGES.clear()
