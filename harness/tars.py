"""Hostile but valid tar archives and what samples they hold (computed from the member list, not by the code under test)."""
import hashlib
import io
import random
import tarfile

SIZES = (0, 1, 2, 17, 510, 511, 512, 513, 1023, 1024, 1025, 1535, 1536, 1537, 3000, 5120, 10239, 10240, 10241, 70001)
FORMATS = {"ustar": tarfile.USTAR_FORMAT, "gnu": tarfile.GNU_FORMAT, "pax": tarfile.PAX_FORMAT}


def blob(tag, n):
    seed = hashlib.sha256(tag.encode()).digest()
    return (seed * (n // len(seed) + 1))[:n]


def gen_members(rng, fmt, nsamples, exts=None):
    """List of members: dict(name, kind=file|dir|sym|..., size, extra headers). JSON-able."""
    members = []
    style = rng.choice(["plain", "plain", "dir", "dotdir", "deep", "long", "unicode", "mixed", "near", "near"])
    used = set()
    for i in range(nsamples):
        st = style if style != "mixed" else rng.choice(["plain", "dir", "dotdir", "long", "unicode", "deep", "near"])
        if st == "near":
            # neighbours which are nearly equal: same file name in another folder, other case, one a prefix of the other
            base = rng.choice(["a/s", "b/s", "s", "S", "a/b/s", "ss", "s_", "s ", "./s", "a/S", "s0", "s00", "A/s", "b/s/s"])
        elif st == "plain":
            base = f"s{i:05d}"
        elif st == "dir":
            base = f"dir{rng.randint(0, 2)}/s{i}"
        elif st == "dotdir":
            base = f"./d.x{rng.randint(0, 2)}/s{i}"
        elif st == "deep":
            base = "/".join(f"d{j}" for j in range(rng.randint(2, 9))) + f"/s{i}"
        elif st == "long":
            n = rng.choice([90, 95, 99, 100, 101, 120]) if fmt == "ustar" else rng.choice([95, 99, 100, 101, 150, 255, 256, 300, 520])
            base = ("l" * 40 + "/") * (n // 41) + f"s{i}" + "k" * max(0, n % 41 - 6)
        else:
            base = rng.choice(["ä%d", "文件_%d", "x\u0301_%d", "sp ace %d", "q'%d", "a,b=%d", "-%d", "%d"]) % i
        if base in used:
            base += f"_{i}"
        used.add(base)
        pool = exts or ["txt", "bin", "json", "jpg", "x.json", "seg.0.png", "TXT", "é", "a b", "tar", "dat.gz"]
        parts = rng.sample(pool, rng.choice([1, 1, 2, 3, min(5, len(pool))]))
        for e in parts:
            members.append(dict(name=f"{base}.{e}", kind="file", size=rng.choice(SIZES)))
            if rng.random() < 0.08:
                members.append(noise(rng, i))
        if rng.random() < 0.12:
            members.append(noise(rng, i))
    if rng.random() < 0.2:
        members.insert(0, noise(rng, 99))
    for m in members:
        if fmt == "pax" and rng.random() < 0.15:
            m["pax"] = {rng.choice(["comment", "SCHILY.xattr.user.a", "mtime", "vendor.key"]): rng.choice(["1.5", "12345.678", "1"])}
        elif rng.random() < 0.1:
            m["mtime"] = rng.choice([0, 1, 2**31, 1.5 if fmt == "pax" else 7])
        if rng.random() < 0.1:
            m["uname"] = rng.choice(["root", "u" * 31, "ü"])
    return members


def noise(rng, i):
    k = rng.choice(["dir", "sym", "noext", "hidden", "meta", "metadir", "link", "fifo", "dotted"])
    if k == "dir":
        return dict(name=f"somedir{i}.d/", kind="dir", size=0)
    if k == "sym":
        return dict(name=f"sym{i}.txt", kind="sym", size=0)
    if k == "link":
        return dict(name=f"link{i}.txt", kind="link", size=0)
    if k == "fifo":
        return dict(name=f"fifo{i}.txt", kind="fifo", size=0)
    if k == "noext":
        return dict(name=f"README{i}", kind="file", size=rng.choice(SIZES))
    if k == "hidden":
        return dict(name=f".hidden{i}", kind="file", size=rng.choice(SIZES))
    if k == "meta":
        return dict(name="__meta__", kind="file", size=rng.choice(SIZES))
    if k == "dotted":
        return dict(name=f"a.b/noext{i}", kind="file", size=rng.choice(SIZES))
    return dict(name="__MACOSX__/x.txt", kind="file", size=rng.choice(SIZES))


def write_tar(path, members, fmt, tail="normal", tag="", starts=None):
    """tail: how the archive ends (normal: record padding; short: the two zero blocks only; one: a single zero block;
    none: nothing)."""
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w", format=FORMATS[fmt], encoding="utf-8") as tar:
        for m in members:
            if starts is not None:
                starts.append(tar.offset)
            ti = tarfile.TarInfo(m["name"].rstrip("/"))
            ti.mtime = m.get("mtime", 0)
            ti.uname = m.get("uname", "")
            if "pax" in m:
                ti.pax_headers = dict(m["pax"])
            if m["kind"] == "file":
                ti.size = m["size"]
                tar.addfile(ti, io.BytesIO(content(m, tag)))
            else:
                ti.type = {"dir": tarfile.DIRTYPE, "sym": tarfile.SYMTYPE, "link": tarfile.LNKTYPE, "fifo": tarfile.FIFOTYPE}[m["kind"]]
                if m["kind"] in ("sym", "link"):
                    ti.linkname = members[0]["name"].rstrip("/")[:90]
                tar.addfile(ti)
        end = tar.offset
    data = buf.getvalue()
    if tail == "short":
        data = data[: end + 1024]
    elif tail == "one":
        data = data[: end + 512]
    elif tail == "none":
        data = data[:end]
    with open(path, "wb") as f:
        f.write(data)
    return end


def content(m, tag=""):
    return blob(tag + m["name"], m["size"])


def split_name(name):
    """(base, ext) of a part, or None if the member is not part of a sample: as documented, the extension starts at the
    first dot of the file name, and entries called __...__ are metadata."""
    for comp in name.split("/"):
        break
    if name.startswith("__") and name.split("/")[0].endswith("__") and len(name.split("/")[0]) >= 4:
        return None
    d, _, f = name.rpartition("/")
    if "." not in f or f.startswith("."):
        return None
    b, _, e = f.partition(".")
    return (d + "/" + b if "/" in name else b), e


def model(members, tag=""):
    """Ordered list of (base name, {ext: bytes}): runs of parts with the same base name."""
    out = []
    for m in members:
        if m["kind"] != "file":
            continue
        be = split_name(m["name"])
        if be is None:
            continue
        b, e = be
        if not out or out[-1][0] != b:
            out.append((b, {}))
        out[-1][1][e] = content(m, tag)
    return out


def valid(members):
    """No part twice in a sample and at least one sample."""
    prev = None
    seen = set()
    n = 0
    for m in members:
        be = split_name(m["name"]) if m["kind"] == "file" else None
        if be is None:
            continue
        if be[0] != prev:
            prev, seen = be[0], set()
            n += 1
        if be[1] in seen:
            return False
        seen.add(be[1])
    return n > 0


def gen_tar(rng, nsamples=None, exts=None):
    while True:
        fmt = rng.choice(["ustar", "gnu", "pax"])
        n = nsamples or rng.choice([1, 2, 3, 5, 8, 13, 20])
        members = gen_members(rng, fmt, n, exts)
        if fmt == "ustar":
            if any(m["name"] != m["name"].encode("ascii", "replace").decode() for m in members) and rng.random() < 0.5:
                pass
        if not valid(members):
            continue
        try:
            import os

            write_tar(os.devnull, members, fmt)
        except ValueError:  # name too long for the format
            continue
        return dict(fmt=fmt, members=members, tail=rng.choice(["normal", "normal", "short", "one", "none"]))


def make(path, spec, tag="", starts=None):
    return write_tar(path, spec["members"], spec["fmt"], spec["tail"], tag, starts)


def index_of(members, starts, end):
    """The offsets an index of the archive has to hold."""
    out, prev = [], None
    for m, o in zip(members, starts):
        be = split_name(m["name"]) if m["kind"] == "file" else None
        if be is None:
            continue
        if be[0] != prev:
            out.append(o)
            prev = be[0]
    return out + [end]
