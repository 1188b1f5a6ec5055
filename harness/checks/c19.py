"""C19: EPath arithmetic agrees with POSIX paths for local and remote paths."""
import os
import posixpath
import random
from pathlib import Path, PurePosixPath

from harness.fp import short

PROPERTY = "C19"
LEVEL = "exploration"
RULE = (
    "Random programs of path operations (construction in all ways, join with absolute and relative parts, '..' and '.', "
    "parent, name, suffixes, relative_to, comparison, hashing, string round trip) run on local and on remote paths (remote "
    "file systems replaced by a directory), each result compared with posixpath / PurePosixPath on the part below the "
    "remote; and random sequences of file operations (write, read, size, exists, move, delete, mkdir, glob), each compared "
    "with the operating system's view of the directory. An evaluation is one operation compared; distinct by case and step."
)
ASSUMPTIONS = [
    "the remote object store behaves like a directory tree (s3fs itself is replaced, it is not part of the repository)",
    "paths starting with exactly two slashes are implementation-defined in POSIX and not used",
]

PARTS = ["a", "b", "a.b", "x.tar", "x.tar.idx", ".hidden", ".nv-meta", "ä", "sp ace", "...", "c.", "a,b", "{1..3}", "r1", "rclone:", "~"]
SUFFIXES = [".tar.idx", ".idx", "", ".x", ".tar.idx.tmp"]


def plan(tier):
    need = {"local_ops": 6000, "remote_ops": 6000, "joins": 2000, "climb_refused": 50, "file_ops": 2000, "remote_file_ops": 700, "glob_hits": 100, "roundtrip": 1000}
    if tier == "quick":
        return dict(n=1500, shards=10, case_timeout=30, budget=100, min_evals=10000, need_events=need)
    return dict(n=60000, shards=10, case_timeout=30, budget=560, min_evals=300000, need_events=need)


def gen(rng, idx, tier):
    return dict(seed=rng.randrange(1 << 30), mode="files" if idx % 4 == 3 else "paths", remote=idx % 2 == 1)


REMOTES = {}


def setup(scratch):
    from fsspec.implementations.dirfs import DirFileSystem
    from fsspec.implementations.local import LocalFileSystem

    from megatron.energon.epathlib import EPath

    class Remote(DirFileSystem):
        """Stand-in for a remote object store: a directory. Instances of the same remote are equal, like s3fs instances."""

        cachable = False

        def __init__(self, root):
            super().__init__(path=root, fs=LocalFileSystem(auto_mkdir=True))
            self.root = root

        def __eq__(self, other):
            return isinstance(other, Remote) and other.root == self.root

        def __hash__(self):
            return hash(self.root)

        def _join(self, path):
            return super()._join(path.lstrip("/") if isinstance(path, str) else [p.lstrip("/") for p in path])

    def create(remote_name, config_override=None):
        if remote_name not in REMOTES:
            raise ValueError(f"Unknown rclone remote: {remote_name}")
        return Remote(REMOTES[remote_name]), {}

    EPath.create_s3fs_from_rclone_remote = staticmethod(create)


def run_case(case, rec):
    REMOTES.clear()
    for r in ("r1", "r2"):
        REMOTES[r] = os.path.join(rec.tmp, "remote_" + r)
        os.makedirs(REMOTES[r])
    rng = random.Random(case["seed"])
    (files if case["mode"] == "files" else paths)(case, rec, rng)


def rand_rel(rng, dots=0.3):
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        parts.append(rng.choice(["..", "..", "."]) if rng.random() < dots else rng.choice(PARTS))
    s = rng.choice(["/", "/", "//", "/./"]).join(parts)
    if "://" in s:  # (would be a protocol)
        s = "a/" + s.replace("://", ":/")
    return ("./" if rng.random() < 0.1 else "") + s + ("/" if rng.random() < 0.15 else "")


def norm(parts):
    """Resolves . and ..; None when climbing above the root."""
    out = []
    for p in parts:
        if p == "..":
            if not out:
                return None
            out.pop()
        elif p not in ("", "."):
            out.append(p)
    return out


class Model:
    """What a path should be: the remote (None: local) and a PurePosixPath below its root."""

    def __init__(self, remote, path):
        self.remote, self.path = remote, path  # path: PurePosixPath, absolute (or relative for local)

    def __str__(self):
        if self.remote is None:
            return str(self.path)
        return "rclone://" + self.remote + ("" if str(self.path) == "/" else str(self.path))

    def key(self):
        return (self.remote, str(self.path))


def check_path(rec, p, m, how):
    from megatron.energon.epathlib import EPath

    got = {}
    want = {}
    for name, f, w in [
        ("str", lambda: str(p), str(m)),
        ("name", lambda: p.name, m.path.name if str(m.path) != "/" or m.remote is None else m.remote),
        ("is_absolute", lambda: p.is_absolute(), m.path.is_absolute()),
        ("equal_self", lambda: p == EPath(p), True),
        ("not_equal_none", lambda: (p == None, p != None), (False, True)),  # noqa: E711
        ("repr", lambda: repr(p), f"EPath({str(m)!r})"),
    ]:
        try:
            got[name] = f()
        except Exception as e:
            got[name] = repr(e)
        want[name] = w
    if m.path.is_absolute():
        q = EPath(str(p))
        rec.ev("roundtrip")
        for name, g, w in [("roundtrip", q == p, True), ("roundtrip_hash", hash(q) == hash(p), True), ("absolute", p.absolute() == p, True), ("url", p.url, str(m))]:
            got[name], want[name] = g, w
    else:
        got["relpath"], want["relpath"] = p.relpath, str(m.path)
        got["absolute"], want["absolute"] = str(p.absolute()), str(Path(str(m.path)).absolute())
    rec.evaluated((rec.idx, how))
    bad = {k: (got[k], want[k]) for k in want if got[k] != want[k]}
    if bad:
        rec.violation("path-attribute", f"{how}: (got, expected) {bad}")
        return False
    return True


def paths(case, rec, rng):
    from megatron.energon.epathlib import EPath

    remote = case["remote"]
    known = []
    for k in range(25):
        rec.ev("remote_ops" if remote else "local_ops")
        op = rng.choice(["new", "join", "join", "join", "parent", "suffix", "relative", "compare", "chain"]) if known else "new"
        if op == "new":
            rel = rand_rel(rng)
            if remote:
                r = rng.choice(["r1", "r2"])
                n = norm(rel.split("/"))
                if n is None:
                    continue
                m = Model(r, PurePosixPath("/", *n))
                text = f"rclone://{rng.choice(['', '/'])}{r}/{rel}"
                p = EPath(text)
            else:
                ab = rng.random() < 0.85
                text = ("/" if ab else "") + rel.lstrip("/")
                src = rng.choice([str, Path])
                m = Model(None, PurePosixPath(text) if src is str else PurePosixPath(Path(text).absolute()))
                p = EPath(src(text))
                text = f"{src.__name__}({text!r})"
            how = f"{k}: EPath({text})"
        else:
            p0, m0 = rng.choice(known)
            if not m0.path.is_absolute():
                continue
            if op in ("join", "chain"):
                rec.ev("joins")
                x = rng.random()
                if x < 0.12:
                    q, mq = rng.choice(known)
                    how = f"{k}: {m0} / {mq!s} (EPath)"
                    if mq.path.is_absolute():
                        m = mq
                    else:
                        n = norm(m0.path.parts[1:] + mq.path.parts)
                        m = n if n is None else Model(m0.remote, PurePosixPath("/", *n))
                    arg = q
                elif x < 0.2:
                    arg = "/" + rng.choice(PARTS)
                    m = Model(None, PurePosixPath(arg))
                    how = f"{k}: {m0} / {arg!r}"
                elif x < 0.25 and remote:
                    arg = "rclone://r2/" + rng.choice(PARTS)
                    m = Model("r2", PurePosixPath(arg[len("rclone://r2"):]))
                    how = f"{k}: {m0} / {arg!r}"
                else:
                    arg = rand_rel(rng, rng.choice([0.2, 0.6]))
                    if op == "chain":
                        arg = "../" * rng.randint(1, 4) + arg
                    if remote and rng.random() < 0.1:
                        arg = "../" * len(m0.path.parts) + rng.choice(["r1", "r2", "r2/x"])
                    how = f"{k}: {m0} / {arg!r}"
                    n = norm(list(m0.path.parts[1:]) + arg.split("/"))
                    m = n if n is None else Model(m0.remote, PurePosixPath("/", *n))
                try:
                    p = p0 / arg
                except ValueError as e:
                    if m is None:
                        rec.ev("climb_refused")
                    else:
                        rec.violation("path-join", f"{how} raised {e!r}, expected {m}")
                        return
                    continue
                if m is None:
                    # Above the root: POSIX stays at the root; anything else leaves the file system
                    q = str(p)
                    inside = q.startswith("rclone://" + m0.remote) and (q + "/").startswith(f"rclone://{m0.remote}/") if m0.remote else True
                    rec.check(inside, "path-climb", f"{how} gave {q}")
                    continue
            elif op == "parent":
                how = f"{k}: {m0}.parent"
                p = p0.parent
                m = Model(m0.remote, m0.path.parent)
            elif op == "suffix":
                suf = rng.choice(SUFFIXES)
                how = f"{k}: {m0}.with_suffix({suf!r})"
                try:
                    w = m0.path.with_suffix(suf)
                except ValueError:
                    continue
                m = Model(m0.remote, w)
                p = p0.with_suffix(suf)
            elif op == "relative":
                same = [(q, n) for q, n in known if n.remote == m0.remote and n.path.is_absolute()]
                q, n = rng.choice(same)
                if rng.random() < 0.5:
                    q, n = p0.parent, Model(m0.remote, m0.path.parent)
                try:
                    w = str(m0.path.relative_to(n.path))
                except ValueError:
                    w = ValueError
                try:
                    g = p0.relative_to(q)
                except ValueError:
                    g = ValueError
                rec.evaluated((rec.idx, k))
                rec.check(g == w, "path-relative", f"{k}: {m0}.relative_to({n}) is {g}, expected {w}")
                continue
            else:
                q, n = rng.choice(known)
                eq = m0.key() == n.key()
                rec.evaluated((rec.idx, k))
                rec.check((p0 == q) == eq and (p0 != q) != eq and (q == p0) == eq, "path-equality", f"{k}: {m0} == {n}: {p0 == q}, expected {eq}")
                rec.check(not eq or hash(p0) == hash(q), "path-hash", f"{k}: equal paths {m0} with different hashes")
                rec.check(len({p0, q}) == (1 if eq else 2), "path-set", f"{k}: set of {m0}, {n}")
                if m0.remote == n.remote:
                    rec.check((p0 < q) == (m0.path < n.path), "path-order", f"{k}: {m0} < {n}: {p0 < q}")
                continue
        if not check_path(rec, p, m, how):
            return
        known.append((p, m))
    rec.sample = dict(mode="paths", remote=remote, paths=[str(m) for _, m in known[:6]])


def files(case, rec, rng):
    from megatron.energon.epathlib import EPath

    remote = case["remote"] = rng.random() < 0.5
    if remote:
        real = REMOTES["r1"]
        root = EPath("rclone://r1/bucket")
        real = os.path.join(real, "bucket")
    else:
        real = os.path.join(rec.tmp, "loc.al")
        root = EPath(real)
    os.makedirs(real, exist_ok=True)
    dirs, names = [""], ["f0.txt", "f1.tar", "f1.tar.idx", "g.x", ".hid", "ä b"]
    for k in range(30):
        rec.ev("file_ops")
        if remote:
            rec.ev("remote_file_ops")
        op = rng.choice(["write", "write", "read", "stat", "move", "unlink", "mkdir", "glob", "glob"])
        d, n = rng.choice(dirs), rng.choice(names)
        rp = os.path.join(real, d, n)
        ep = root / d / n if d else root / n
        how = f"{k}: {op} {d}/{n} remote={remote}"
        rec.evaluated((rec.idx, k))
        exists = os.path.exists(rp)
        if op == "write":
            data = rng.randbytes(rng.choice([0, 1, 100, 5000, 70000]))
            if rng.random() < 0.3:
                text = "".join(rng.choice("aä\n\\ ") for _ in range(rng.randint(0, 50)))
                with ep.open("w") as f:
                    f.write(text)
                data = text.encode()
            else:
                with ep.open("wb") as f:
                    for i in range(0, len(data), 3000):
                        f.write(data[i : i + 3000])
            got = open(rp, "rb").read() if os.path.exists(rp) else None
            rec.check(got == data, "file-write", f"{how}: stored {short(got)}, written {short(data)}")
        elif op == "read":
            try:
                with ep.open("rb") as f:
                    got = f.read()
            except FileNotFoundError:
                got = None
            rec.check(got == (open(rp, "rb").read() if exists else None), "file-read", f"{how}: {short(got)}")
            if exists:
                try:
                    want = open(rp, encoding="utf8").read()
                except UnicodeDecodeError:
                    continue
                rec.check(ep.read_text() == want, "file-read", f"{how}: read_text")
        elif op == "stat":
            rec.check(ep.is_file() == os.path.isfile(rp), "file-stat", f"{how}: is_file {ep.is_file()}")
            rec.check(not ep.is_dir(), "file-stat", f"{how}: is_dir")
            dd = root / d if d else root
            rec.check(dd.is_dir() and not dd.is_file(), "file-stat", f"{how}: directory {dd}")
            if exists:
                rec.check(ep.size() == os.path.getsize(rp), "file-stat", f"{how}: size {ep.size()}")
        elif op == "move" and exists:
            d2, n2 = rng.choice(dirs), rng.choice(names)
            rp2 = os.path.join(real, d2, n2)
            if rp2 == rp:
                continue
            data = open(rp, "rb").read()
            ep.move(root / d2 / n2 if d2 else root / n2)
            ok = not os.path.exists(rp) and os.path.exists(rp2) and open(rp2, "rb").read() == data
            rec.check(ok, "file-move", f"{how} to {d2}/{n2}: source exists {os.path.exists(rp)}, target {os.path.exists(rp2)}")
        elif op == "unlink" and exists:
            ep.unlink()
            rec.check(not os.path.exists(rp), "file-unlink", how)
        elif op == "mkdir":
            nd = posixpath.join(d, rng.choice(["s1", "s.2", "s3", "x[1]", "q?", "st*r", "[f]"]))
            (root / nd).mkdir(exist_ok=True, parents=True)
            rec.check(os.path.isdir(os.path.join(real, nd)), "file-mkdir", f"{how}: {nd}")
            if nd not in dirs:
                dirs.append(nd)
        elif op == "glob":
            pat = rng.choice(["*.tar", "f*", "**/*.tar", "*/f?.tar", "f[0-1].*", "s1/*.x", "g.x", "nothing*", "**/*.txt"])
            base = root / d if d else root
            got = sorted(str(x) for x in base.glob(pat))
            want = sorted(str(base / os.path.relpath(x, os.path.join(real, d))) for x in Path(real, d).glob(pat))
            # Hidden entries are matched by pathlib, and by fsspec too
            rec.ev("glob_hits", len(want))
            rec.check(got == want, "file-glob", f"{how} {pat}: {got}, expected {want}")
        if rec.violations:
            return
    rec.sample = dict(mode="files", remote=remote, dirs=dirs)
