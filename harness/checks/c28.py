"""C28: the command line tools report what is really there."""
import glob
import io
import json
import os
import pickle
import random
import re
import signal
import sys
import tarfile
import threading
import time
import traceback

import numpy as np
import torch
import yaml
from PIL import Image

from megatron.energon import WorkerConfig, get_loader, get_savable_loader, get_train_dataset, get_val_dataset
from megatron.energon.flavors import BaseWebdatasetFactory

from harness import dsgen, tes
from harness.core import HarnessError

PROPERTY = "C28"
LEVEL = "exploration"
RULE = (
    "Every case runs one command line tool on generated data in a forked process and compares its exit code and what it "
    "prints with what was generated. lint: datasets and metadatasets with undecodable or incomplete samples and stale indexes "
    "inside and outside of the linted splits, any number of workers, other config names; it has to fail exactly if a sample "
    "of the linted splits fails, and name it. info: sample, shard and split counts, size, sample type. analyze-debug: the "
    "numbers of distinct keys and steps, and every cell of the heatmap, of logs written by real loaders. preview: every "
    "sample of the splits, in order, with its content. prepare: the interactively written configuration loads all samples. "
    "An evaluation is one run of a tool; distinct by tool, options, data shape and outcome."
)
ASSUMPTIONS = [
    "the tools are called through click's test runner; a run that does not end within 150 s (normally below 5 s) hangs",
    "what is printed is recognized by the numbers and names in it, not by its wording",
]
DEADLINE = 150


def plan(tier):
    if tier == "quick":
        return dict(n=400, shards=14, case_timeout=220, budget=220, min_evals=250,
                    need_events={"lint_fail": 10, "lint_ok": 10, "info": 15, "analyze": 15, "preview_samples": 60, "prepare_loaded": 8, "heatmap_cells": 300})
    return dict(n=2400, shards=14, case_timeout=220, budget=570, min_evals=1200,
                need_events={"lint_fail": 100, "lint_ok": 100, "info": 100, "analyze": 100, "preview_samples": 600, "prepare_loaded": 60, "heatmap_cells": 3000})


MODES = ("lint", "analyze", "info", "prepare", "lint", "preview", "analyze", "lint")
BAD = ("nofield", "badjson", "badpng")


def gen(rng, idx, tier):
    mode = MODES[idx % len(MODES)]
    case = dict(mode=mode, seed=rng.randrange(1 << 30))
    if mode == "analyze":
        R, W = rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 1, 2])
        sp = tes.gen_te(rng, W=W, world=R, allow_err=False)
        n = rng.randint(3, 14)
        case.update(spec=sp, n=n, savable=rng.random() < 0.6, two=rng.random() < 0.3 and W == 0,
                    skip=rng.choice([0, 0, 1, rng.randint(0, n - 1)]), force=rng.random() < 0.3,
                    steps=rng.choice([2, 4, 5, 10, 1000]), samples=rng.choice([2, 4, 7, 16, 1000]), colors=rng.random() < 0.5,
                    how=rng.choice(["dir", "files", "dirfiles"]), val=rng.random() < 0.5, junk=rng.random() < 0.3)
        if case["two"]:
            case["force"] = False
        return case
    kind = rng.choice(["text", "text", "json", "image"])
    shards = [rng.randint(1, 6) for _ in range(rng.randint(1, 5))]
    names = ["train", "val", "test"][: rng.choice([1, 2, 3, 3])]
    case.update(kind=kind, shards=shards, splits=[rng.choice(names) for _ in shards], names=names, brace=rng.random() < 0.3,
                style=rng.choice(["sample_type", "sample_type", "class", "crude"]), const=rng.random() < 0.3, gz=False)
    if mode == "lint":
        bad = []
        if rng.random() < 0.65:
            for _ in range(rng.choice([1, 1, 2, 4])):
                bad.append((rng.randrange(sum(shards)), rng.choice(BAD)))
        case.update(bad=bad, exclude=rng.random() < 0.25, stale=rng.random() < 0.12, parallel=rng.choice([0, 1, 1, 2, 3]), cfg=rng.random() < 0.2,
                    meta=rng.choice([None, None, None, "v1", "v2"]), parts=rng.choice(["default", "all", "one", "one"]),
                    style=rng.choice(["sample_type", "class"]))
    elif mode == "prepare":
        case.update(kind=rng.choice(["text", "json", "image"]), choice=rng.choice(["field_map", "field_map", "field_map", "crude", "loader"]), ratio=rng.choice(["1,0,0", "0.5,0.2,0.3", "8,1,1", "0,1,0"]),
                    invalid=rng.random() < 0.4, optional=rng.random() < 0.5, alt=rng.random() < 0.4, many=rng.random() < 0.15,
                    pat=rng.random() < 0.3, exclude=rng.random() < 0.2 and len(shards) > 1)
    elif mode == "preview":
        case.update(style=rng.choice(["sample_type", "class"]), stop=rng.choice([None, None, rng.randint(1, 5)]))
    return case


# ---- data ----

def img_of(i, const):
    r = random.Random(f"img{i}")
    h, w = r.randint(2, 9), r.randint(2, 9)
    if const and i % 2 == 0:
        return np.full((h, w, 3), r.choice([0, 7, 255]), np.uint8)
    return np.array([[[r.randrange(256) for _ in range(3)] for _ in range(w)] for _ in range(h)], np.uint8)


def text_of(i):
    return random.Random(f"t{i}").choice(["plain %d", "it's %d", 'two "quotes" %d', "line\nbreak %d", "ünï %d", "%d"]) % i


def parts_of(kind, i, const, many=False):
    d = {}
    if kind == "text":
        d["txt"] = text_of(i).encode()
        if i % 3 == 0:
            d["json"] = json.dumps(dict(x=i)).encode()
    elif kind == "json":
        d["json"] = json.dumps(dict(caption=text_of(i), info=dict(n=i))).encode()
    else:
        f = io.BytesIO()
        Image.fromarray(img_of(i, const)).save(f, "png")
        d["png"] = f.getvalue()
        d["txt"] = text_of(i).encode()
        d["json"] = json.dumps(dict(caption=text_of(i), info=dict(n=i))).encode()
    if many:
        for k in range(12):
            d[f"x{k}"] = b"y"
    return d


def corrupt(kind, parts, how):
    """Returns whether the sample still loads."""
    if kind == "text":
        del parts["txt"]
    elif kind == "json":
        parts["json"] = b'{"caption": ' if how != "nofield" else b'{"other": 1}'
    elif how == "badpng":
        parts["png"] = parts["png"][: len(parts["png"]) // 2]
    elif how == "badjson":
        parts["json"] = b"{,"
    else:
        del parts["txt"]


def key(i):
    return f"k{i:04d}"


def write_tars(path, case, bad=()):
    os.makedirs(os.path.join(path, "parts"))
    bad = dict(bad)
    i = 0
    res = []
    for s, n in enumerate(case["shards"]):
        rel = f"parts/data-{s}.tar"
        with tarfile.open(os.path.join(path, rel), "w") as tar:
            for _ in range(n):
                parts = parts_of(case["kind"], i, case["const"], case.get("many"))
                if i in bad:
                    corrupt(case["kind"], parts, bad[i])
                if not parts:
                    parts["zzz"] = b"rest"
                for k, v in parts.items():
                    dsgen.add_file(tar, f"{key(i)}.{k}", v)
                res.append((s, i))
                i += 1
    return res


SAMPLE = {"text": "TextSample", "json": "TextSample", "image": "CaptioningSample"}
FMAP = {"text": dict(text="txt"), "json": dict(text="json[caption]"), "image": dict(image="png", caption="txt")}


def make(root, case, name="ds", bad=(), prepare=True):
    path = os.path.join(root, name)
    write_tars(path, case, bad)
    if not prepare:
        return path
    tars = [f"parts/data-{s}.tar" for s in range(len(case["shards"]))]
    BaseWebdatasetFactory.prepare_dataset(path, tars, split_parts_ratio=[("train", 1.0)], shuffle_seed=None, workers=1)
    splits = {n: [s for s, x in enumerate(case["splits"]) if x == n] for n in case["names"]}
    sp = dict(exclude=[], split_parts={n: dsgen.braced(v, case["seed"]) if case["brace"] and v else [f"parts/data-{s}.tar" for s in v] for n, v in splits.items()})
    if case.get("exclude"):
        sp["exclude"] = [f"parts/data-{shard_of(case, i)}.tar/{key(i)}" for i in dict(bad)]
    write(path, case, "split.yaml", sp)
    if case["style"] == "sample_type":
        d = dict(sample_type={"__module__": "megatron.energon", "__class__": SAMPLE[case["kind"]]}, field_map=FMAP[case["kind"]])
    elif case["style"] == "class":
        d = {"__module__": "megatron.energon", "__class__": SAMPLE[case["kind"]].replace("Sample", "Webdataset"), "field_map": FMAP[case["kind"]]}
    else:
        d = {"__module__": "megatron.energon", "__class__": "CrudeWebdataset"}
    write(path, case, "dataset.yaml", d)
    return path


def write(path, case, f, data):
    if case.get("cfg"):  # other names of the configurations, and nothing useful under the usual names
        with open(os.path.join(path, ".nv-meta", f), "w") as o:
            o.write("nothing: here\n")
        f = "other_" + f
    with open(os.path.join(path, ".nv-meta", f), "w") as o:
        yaml.dump(data, o)


def shard_of(case, i):
    for s, n in enumerate(case["shards"]):
        if i < n:
            return s
        i -= n


def of_split(case, split):
    """Sample indexes of a split."""
    out, i = [], 0
    for n, x in zip(case["shards"], case["splits"]):
        if x == split:
            out += range(i, i + n)
        i += n
    return out


# ---- running a tool ----

def tool(name):
    import importlib

    return importlib.import_module("megatron.energon.tools." + name).command


def invoke(name, args, inp=None, cwd=None):
    from click.testing import CliRunner

    if cwd:
        os.chdir(cwd)
    r = CliRunner().invoke(tool(name), [str(a) for a in args], input=inp)
    err = ""
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        err = "".join(traceback.format_exception(r.exception))[-1500:]
    return r.exit_code, r.output, err


def forked(fn, rec, what):
    """Runs fn in an own process group; returns its result. None (and a violation) if it hangs."""
    dst = os.path.join(rec.tmp, f"res{time.monotonic_ns()}")
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.setsid()
            fd = os.open(os.path.join(rec.tmp, "out.txt"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            try:
                res = ("ok", fn())
            except HarnessError:
                res = ("harness", traceback.format_exc())
            except BaseException:
                res = ("exc", traceback.format_exc())
            with open(dst, "wb") as f:
                pickle.dump(res, f)
            rc = 0
        finally:
            os._exit(rc)
    t0 = time.monotonic()
    hung = False
    while os.waitpid(pid, os.WNOHANG) == (0, 0):
        if time.monotonic() - t0 > DEADLINE:
            hung = True
            break
        time.sleep(0.005)
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    if hung:
        os.waitpid(pid, 0)
        rec.violation("hang", f"{what}: no end after {DEADLINE} s")
        return None
    if not os.path.exists(dst):
        raise HarnessError(f"{what}: the process ended without a result: " + open(os.path.join(rec.tmp, "out.txt"), errors="replace").read()[-1500:])
    with open(dst, "rb") as f:
        buf = [f.read()]
    st, res = pickle.loads(buf[0])
    if st == "harness":
        raise HarnessError(res)
    if st == "exc":
        if "/megatron/energon/" in res:
            rec.violation("exception", f"{what}: {res[-2500:]}")
            return None
        raise HarnessError(res)
    return res


def numbers(s):
    return [int(x.replace(",", "")) for x in re.findall(r"(?<![\w.])\d[\d,]*(?![\w.]*\d)", s)]


# ---- lint ----

def run_lint(case, root, rec):
    bad = {i: h for i, h in case["bad"]}
    path = make(root, case, "ds", bad)
    if case["stale"]:
        # an index that does not fit the counts any more
        f = os.path.join(path, f"parts/data-{len(case['shards']) - 1}.tar.idx")
        size = os.path.getsize(f)
        with open(f, "r+b") as o:
            o.truncate(size - 8)
    names = [n for n in case["names"]]
    parts = {"default": ["train", "val", "test"], "all": names, "one": [random.Random(case["seed"]).choice(names)]}[case["parts"]]
    args = []
    target = path
    if case["meta"]:
        # metadataset with the splits
        if case["meta"] == "v1":
            d = {"__module__": "megatron.energon", "__class__": "Metadataset", "splits": {n: dict(datasets=[dict(path="ds", weight=1, split_part=n)]) for n in names}}
        else:
            d = {"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {n: dict(path="ds", split_part=n) for n in names}}
        if case["cfg"]:
            for n in names:
                for e in d["splits"][n].get("datasets", [d["splits"][n]]):
                    e.update(dataset_config="other_dataset.yaml", split_config="other_split.yaml")
        target = os.path.join(root, "meta.yaml")
        with open(target, "w") as f:
            yaml.dump(d, f)
    elif case["cfg"]:
        args += ["--dataset-config", "other_dataset.yaml", "--split-config", "other_split.yaml"]
    if case["parts"] != "default" or random.Random(case["seed"]).random() < 0.5:
        args += ["--split-parts", ",".join(parts)]
    if case["parallel"] != 1 or random.Random(case["seed"]).random() < 0.5:
        args += ["--parallel", case["parallel"]]
    missing = [p for p in parts if p not in names]
    bad = {i: h for i, h in bad.items() if (case["kind"], h) != ("image", "badjson")}  # nobody reads this json
    broken = {f"parts/data-{shard_of(case, i)}.tar/{key(i)}" for p in parts if p in names for i in of_split(case, p) if i in bad}
    if case["exclude"]:
        broken = set()
    res = forked(lambda: invoke("lint", [target] + args), rec, "lint")
    if res is None:
        return
    code, out, err = res
    stale = case["stale"] and not case["meta"]
    want_fail = bool(broken or missing or stale)
    if case["stale"] and not want_fail:
        return  # the index is not checked through a metadataset; whether its samples load is C10
    shape = f"lint:{case['kind']}:{case['meta']}:{case['parallel']}:{sorted(set(bad.values())) if broken else ''}:{len(parts)}:{case['cfg']}:{stale}:{bool(missing)}"
    if want_fail:
        if not rec.check(code != 0, "lint-missed", f"lint {args} reported success; broken {sorted(broken)}, splits not there: {missing}, stale index: {stale}; output {out[-600:]!r}"):
            return
        if broken and not missing and not case["stale"]:
            named = {x.strip().lstrip("- ") for x in out.splitlines()}
            lost = [k for k in broken if k not in named]
            rec.check(not lost, "lint-names", f"lint {args} did not name {lost}; output {out[-800:]!r}")
            extra = [x for x in named if re.fullmatch(r"parts/data-\d+\.tar/k\d{4}", x) and x not in broken]
            rec.check(not extra, "lint-names", f"lint {args} named {extra}, which are fine; output {out[-800:]!r}")
        rec.ev("lint_fail")
    else:
        rec.check(code == 0, "lint-alarm", f"lint {args} on {os.path.basename(target)} failed ({code}) though all samples of {parts} load: {out[-800:]!r} {err}")
        rec.ev("lint_ok")
    rec.evaluated(f"{shape}:{want_fail}")


# ---- info ----

def run_info(case, root, rec):
    path = make(root, case)
    res = forked(lambda: invoke_print("info", [path]), rec, "info")
    if res is None:
        return
    code, out, err = res
    if not rec.check(code == 0, "info-fails", f"info failed: {out[-500:]} {err}"):
        return
    total = sum(case["shards"])
    size = sum(os.path.getsize(f) for f in glob.glob(os.path.join(path, "parts/*.tar")))
    lines = [x for x in out.splitlines() if x.strip()]
    head = [x for x in lines if path in x]
    if not rec.check(len(head) == 1, "info-counts", f"no line about {path}: {out}"):
        return
    h = head[0].replace(path, "")
    rec.check({total, len(case["shards"])} <= set(numbers(h)), "info-counts", f"{total} samples in {len(case['shards'])} shards, printed {h!r}")
    m = re.search(r"([\d.]+) (B|KiB|MiB)", h)
    if rec.check(m is not None, "info-size", f"no size in {h!r}"):
        got = float(m.group(1)) * {"B": 1, "KiB": 1024, "MiB": 1 << 20}[m.group(2)]
        rec.check(abs(got - size) <= 0.006 * {"B": 1, "KiB": 1024, "MiB": 1 << 20}[m.group(2)], "info-size", f"{size} bytes, printed {h!r}")
    st = SAMPLE[case["kind"]] if case["style"] != "crude" else "CrudeSample"
    rec.check(any(st in x for x in lines), "info-type", f"sample type {st} not printed: {out}")
    for n in case["names"]:
        cnt, sh = len(of_split(case, n)), case["splits"].count(n)
        ln = [x for x in lines if re.search(rf"`{n}`", x)]
        if not rec.check(len(ln) == 1, "info-splits", f"split {n} not printed once: {out}"):
            continue
        pct = re.search(r"(\d+(?:\.\d+)?)%", ln[0])
        rest = re.sub(r"\d+(?:\.\d+)?%", "", ln[0].replace(f"`{n}`", ""))
        rec.check(numbers(rest) == [cnt, sh], "info-splits", f"split {n}: {cnt} samples in {sh} shards, printed {ln[0]!r}")
        rec.check(pct is not None and abs(float(pct.group(1)) - 100 * cnt / total) <= 0.51, "info-splits", f"split {n}: {cnt} of {total}, printed {ln[0]!r}")
    rec.ev("info")
    rec.evaluated(f"info:{case['kind']}:{case['style']}:{case['brace']}:{case['names']}:{len(case['shards'])}")


invoke_print = invoke


# ---- analyze-debug ----

def write_logs(case, root, rec):
    """Runs the loaders of all ranks, each in an own process; returns the log directory."""
    sp = case["spec"]
    data = os.path.join(root, "data")
    os.makedirs(data)
    path = tes.make_te_data(sp, data)
    logs = os.path.join(root, "logs")
    os.makedirs(logs)
    for rank in range(sp["world"]):
        def run():
            wc = WorkerConfig(rank=rank, world_size=sp["world"], num_workers=sp["W"], worker_debug_path=os.path.join(logs, "w{worker_id}.jsonl"), worker_log_level=1)
            lds = []
            for _ in range(2 if case["two"] else 1):
                ds = tes.build_te(sp, path, wc)
                lds.append((get_savable_loader if case["savable"] else get_loader)(ds))
            its = [iter(x) for x in lds]
            for k in range(case["n"]):
                for it in its[: 1 if k % 3 == 2 else 2]:
                    if next(it, None) is None:
                        break
            for w in getattr(its[0], "_workers", None) or getattr(getattr(its[0], "_iterator", None), "_workers", None) or []:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                os.kill(w.pid, signal.SIGKILL)  # the logs are flushed with each line
            return True

        if forked(run, rec, "loader") is None:
            return None
    if case["junk"]:
        # a line cut off by a crash, and unrelated files
        with open(sorted(glob.glob(logs + "/*.jsonl"))[0], "a") as f:
            f.write('{"t": "SavableDataLoader.yield", "r": 0, "w": nul')
        with open(os.path.join(logs, "notes.txt"), "w") as f:
            f.write("hello")
    return logs


def run_analyze(case, root, rec):
    logs = write_logs(case, root, rec)
    if logs is None:
        return
    files = sorted(glob.glob(logs + "/*.jsonl"))
    args = dict(dir=[logs], files=files, dirfiles=[files[0]] + files[1:])[case["how"]]
    order = files
    if case["how"] == "files":
        order = files[::-1]
        args = order
    rows = []
    for f in order:
        rr = []
        for line in open(f):
            try:
                rr.append(json.loads(line))
            except ValueError:
                pass
        rows.append(rr)
    ids = []
    for rr in rows:
        for r in rr:
            if r["t"].endswith(".__init__") and r["id"] not in ids:
                ids.append(r["id"])
    mode = "train" if case["spec"]["training"] else "val"
    sel = ids[random.Random(case["seed"]).randrange(len(ids))] if ids else None
    opts = ["--heatmap-path", os.path.join(root, "h.png"), "--heatmap-steps", case["steps"], "--heatmap-samples", case["samples"]]
    mods = mode if not case["val"] else random.Random(case["seed"]).choice(["train,val", "val,train", mode + ", none"])
    if mods != "train":
        opts += ["--include-modality", mods]
    if case["skip"]:
        opts += ["--skip", case["skip"]]
    if not case["colors"]:
        opts += ["--no-colors"]
    if case["force"]:
        opts += ["--force-loading-order"]
    # what is there
    streams = []  # per source: {step: keys}
    for rr in rows:
        y = [r for r in rr if r["t"].endswith("DataLoader.yield") and r["id"] == sel]
        if any(r["t"].endswith("__init__") for r in rr):
            s = {}
            for r in y:
                s.setdefault(r["global_idx"], []).extend(r.get("keys", []))
            streams.append(s)
    skip = case["skip"]
    force = case["force"] or not any(k for s in streams for i, k in s.items() if i >= skip)
    if force:
        if len(ids) > 1:
            return
        streams = []
        for rr in rows:
            y = [r for r in rr if r["t"] == "WebdatasetSampleLoaderDataset._shards_iter.yield"]
            s = {}
            step = skip
            for r in y:  # the datasets of a blend count on their own: never before the previous sample
                if r["count"] >= skip:
                    step = max(step, r["count"])
                    s.setdefault(step, []).append(r["key"])
            streams.append(s)
    streams = [{i - skip: k for i, k in s.items() if i >= skip} for s in streams]
    nsteps = max([i + 1 for s in streams for i in s], default=0)
    index = {}
    cells = set()
    for step in range(nsteps):
        for s in streams:
            for k in s.get(step, []):
                cells.add((index.setdefault(k, len(index)), step))
    res = forked(lambda: invoke("analyze_debug", [*args, *opts], inp=f"x\n{max(ids, default=0) + 7}\n{sel}\n" if len(ids) > 1 else ""), rec, "analyze-debug")
    if res is None:
        return
    code, out, err = res
    what = f"analyze-debug {opts[2:]} ({len(files)} logs, {nsteps} steps, {len(index)} keys, loaders {ids}, selected {sel})"
    if nsteps == 0:
        rec.ev("analyze_empty")
        return
    if not cells:
        return
    if not rec.check(code == 0, "analyze-fails", f"{what} failed: {out[-600:]} {err}"):
        return
    m = [x for x in out.splitlines() if "unique" in x]
    if not rec.check(len(m) == 1, "analyze-counts", f"{what}: no counts in {out[-500:]}"):
        return
    rec.check(numbers(m[0]) == [len(index), nsteps], "analyze-counts", f"{what}: printed {m[0]!r}")
    img = np.array(Image.open(os.path.join(root, "h.png"))).astype(int).sum(-1)

    def factor(n, top):
        f = 1
        while n * f <= top:
            f *= 2
        return f

    sizes = [case["samples"] + case["samples"] % 2, case["steps"] + case["steps"] % 2]
    tops = [max(c[0] for c in cells), max(c[1] for c in cells)]
    fs = [factor(n, t) for n, t in zip(sizes, tops)]
    want = {(a // fs[0], b // fs[1]) for a, b in cells}
    got = set(zip(*(x.tolist() for x in np.nonzero(img))))
    rec.check(got == want and img.shape == (tops[0] // fs[0] + 1, tops[1] // fs[1] + 1), "analyze-heatmap", f"{what}: heatmap {img.shape} has {sorted(got - want)[:5]} too much and lacks {sorted(want - got)[:5]} of {len(want)}")
    rec.ev("analyze")
    rec.ev("heatmap_cells", len(want))
    rec.evaluated(f"analyze:{case['spec']['W']}:{case['spec']['world']}:{force}:{skip}:{case['steps']}:{case['samples']}:{len(ids)}:{nsteps}:{len(index)}")


# ---- preview ----

def run_preview(case, root, rec):
    path = make(root, case)
    names = case["names"]
    want = [of_split(case, n) for n in names]
    args = ["--split-parts", ",".join(names)]
    ans = []
    seen = []
    for w in want:
        stop = case["stop"] if case["stop"] and case["stop"] <= len(w) else None
        part = w[:stop] if stop else w
        for j, i in enumerate(part):
            seen.append((j, i))
            ans.append("n" if stop and j == stop - 1 else "y")
    res = forked(lambda: invoke("preview", [path, *args], inp="\n".join(ans) + "\n"), rec, "preview")
    if res is None:
        return
    code, out, err = res
    if not rec.check(code == 0, "preview-fails", f"preview {args} failed: {out[-900:]} {err}"):
        return
    secs = re.split(r"(?m)^(?:Continue\? \[y/N\]: [yn]?\s*)?Sample (?=\d+$)", out)[1:]
    if not rec.check(len(secs) == len(seen), "preview-samples", f"{len(secs)} samples shown, {len(seen)} expected: {out[-600:]}"):
        return
    for s, (j, i) in zip(secs, seen):
        ok = s.startswith(f"{j}\n") and repr(text_of(i)) in s and key(i) in s
        if case["kind"] == "image":
            im = img_of(i, case["const"])
            ok = ok and f"[3, {im.shape[0]}, {im.shape[1]}]" in s
        rec.check(ok, "preview-samples", f"position {j} should show {key(i)} {text_of(i)!r}: {s[:600]!r}")
    rec.ev("preview_samples", len(seen))
    rec.evaluated(f"preview:{case['kind']}:{case['style']}:{[len(w) for w in want]}:{case['stop']}:{case['const']}")


# ---- prepare ----

def run_prepare(case, root, rec):
    path = make(root, case, prepare=False)
    n = len(case["shards"])
    args = ["--no-progress", "--num-workers", 1 + case["seed"] % 3, path]
    first = []
    if case["pat"]:
        cut = case["seed"] % n + 1
        args += ["--split-parts", "train:parts/data-{0..%d}.tar" % (cut - 1)]
        if cut < n:
            args += ["--split-parts", "val:parts/data-{%d..%d}.tar" % (cut, n - 1)]
    else:
        first.append(case["ratio"])
    gone = None
    if case["exclude"]:
        gone = case["seed"] % n
        args += ["--exclude", rf"data-{gone}\.tar$"]
        if case["pat"]:
            return  # the patterns would name a shard that was left out
    res = forked(lambda: invoke("prepare", args, inp="\n".join(first + ["y"]) + "\n"), rec, "prepare")
    if res is None:
        return
    code, out, err = res
    classes = {m.group(2): m.group(1) for m in re.finditer(r"(?m)^(\d+)\. (.*)$", out)}
    target = SAMPLE[case["kind"]]
    crude = [v for k, v in classes.items() if "rude" in k and "plain" in k]
    if not rec.check(target in classes and crude, "prepare-classes", f"{target} is not offered: {out[-800:]} {err}"):
        return
    loader = case["choice"] == "loader" or (case["many"] and case["choice"] != "crude")
    ans = ["y"] + first + ["y"]  # already prepared
    if case["invalid"]:
        ans += ["99"]
    if case["choice"] == "crude":
        ans += [crude[0]]
    else:
        ans += [classes[target]]
        if not loader:
            ans += ["y"]
            for f, v in FMAP[case["kind"]].items():
                if case["invalid"]:
                    ans += ["nothere", f"{v},nothere"] if f != "image" else ["nothere"]
                if case["alt"] and case["kind"] == "image" and f == "caption":
                    v = "txt,json[caption]"
                ans.append(v)
        elif not case["many"]:
            ans += ["n"]
    res = forked(lambda: invoke("prepare", args, inp="\n".join(ans) + "\n"), rec, "prepare")
    if res is None:
        return
    code, out, err = res
    what = f"prepare {args[3:]} with answers {ans}"
    if not rec.check(code == 0, "prepare-fails", f"{what} failed: {out[-800:]} {err}"):
        return
    meta = os.path.join(path, ".nv-meta")
    if loader:
        with open(os.path.join(meta, "sample_loader.py")) as f:
            src = f.read()
        ns = {}
        try:
            exec(compile(src, "sample_loader.py", "exec"), ns)
        except SyntaxError as e:
            rec.violation("prepare-loader", f"{what}: the sample loader template does not compile: {e}\n{src}")
            return
        rec.check(callable(ns.get("sample_loader")) and callable(ns.get("part_filter")), "prepare-loader", f"{what}: {src}")
        if not case["many"]:
            types = {p for i in range(sum(case["shards"])) for p in parts_of(case["kind"], i, case["const"])}
            rec.check(all(ns["part_filter"](t) for t in types) and not ns["part_filter"]("nothere"), "prepare-loader", f"{what}: part filter for {types}: {src}")
        # fill in the template the way a user does
        for f, v in FMAP[case["kind"]].items():
            e = 'raw["json"]["caption"]' if v.startswith("json[") else f'raw["{v}"]'
            src, k = re.subn(rf'{f}=raw\["TODO"\]', f"{f}={e}", src)
            rec.check(k == 1, "prepare-loader", f"{what}: field {f} is {k} times in {src}")
        src = src.replace("('TODO',)", repr(tuple(parts_of(case["kind"], 0, False))))
        src = src.replace("return dict(", 'return dict(__key__=raw["__key__"], __restore_key__=raw["__restore_key__"], ') if False else src
        with open(os.path.join(meta, "sample_loader.py"), "w") as f:
            f.write(src)
    with open(os.path.join(meta, "split.yaml")) as f:
        sp = yaml.safe_load(f)
    with open(os.path.join(meta, ".info.yaml")) as f:
        info = yaml.safe_load(f)
    keep = [s for s in range(n) if s != gone]
    rec.check(info["shard_counts"] == {f"parts/data-{s}.tar": case["shards"][s] for s in keep}, "prepare-counts", f"{what}: counts {info['shard_counts']}, tars {case['shards']}")

    def load():
        from megatron.energon import Cooker, DefaultTaskEncoder, basic_sample_keys
        from megatron.energon.flavors import CrudeSample

        out = {}
        for name, shards in sp["split_parts"].items():
            if not shards:
                continue
            wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
            kw = {}
            if case["choice"] == "crude":
                class TE(DefaultTaskEncoder):
                    cookers = [Cooker(lambda s: s)]

                    def encode_sample(self, s):
                        return s

                    def batch(self, s):
                        return s

                kw["task_encoder"] = TE()
            ds = get_val_dataset(path, split_part=name, worker_config=wc, batch_size=1, **kw)
            got = []
            for b in get_loader(ds):
                if case["choice"] == "crude":
                    b = b[0]
                    got.append((b["__key__"], {k: (v.decode() if isinstance(v, bytes) else v if isinstance(v, (str, dict)) else None) for k, v in b.items() if not k.startswith("__")}))
                else:
                    got.append((b.__key__[0], {f: (getattr(b, f)[0].numpy() if isinstance(getattr(b, f)[0], torch.Tensor) else getattr(b, f)[0]) for f in FMAP[case["kind"]]}))
            out[name] = got
        return out

    got = forked(load, rec, f"loading what {what} wrote")
    if got is None:
        return
    alls = []
    for name, g in got.items():
        alls += g
    ids = [i for i in range(sum(case["shards"])) if shard_of(case, i) in keep]
    want = [f"parts/data-{shard_of(case, i)}.tar/{key(i)}" for i in ids]
    if not rec.check(sorted(k for k, _ in alls) == sorted(want), "prepare-loads", f"{what}: loads {[k for k, _ in alls]} of {want}"):
        return
    for k, v in alls:
        i = int(k[-4:])
        if case["choice"] == "crude":
            rec.check(set(v) == set(parts_of(case["kind"], i, case["const"], case["many"])) and ("txt" not in v or v["txt"] == text_of(i)), "prepare-loads", f"{what}: sample {k} is {v}")
            continue
        for f, src in FMAP[case["kind"]].items():
            if f == "image":
                exp = img_of(i, case["const"]).transpose(2, 0, 1).astype(np.float32) / 255
                rec.check(v[f].shape == exp.shape and np.abs(v[f] - exp).max() < 0.01, "prepare-loads", f"{what}: image of {k} differs")
            else:
                rec.check(v[f] == text_of(i), "prepare-loads", f"{what}: {f} of {k} is {v[f]!r}, not {text_of(i)!r}")
    rec.ev("prepare_loaded")
    rec.evaluated(f"prepare:{case['kind']}:{case['choice']}:{case['ratio'] if not case['pat'] else 'pat'}:{case['many']}:{case['invalid']}:{case['alt']}:{n}")


def run_case(case, rec):
    random.seed(case["seed"])
    torch.manual_seed(case["seed"])
    root = os.path.join(rec.tmp, "r")
    os.makedirs(root)
    rec.arm()
    globals()["run_" + case["mode"]](case, root, rec)
