"""C31: loaded samples are the parts in the tar files, decoded as configured; parts that cannot be decoded reach the handler."""
import dataclasses
import io
import json
import os
import tarfile

from harness.fp import short

PROPERTY = "C31"
LEVEL = "exploration"
RULE = (
    "Random datasets of all standard sample types, their deprecated classes, crude and raw data, with images of several formats and "
    "modes, JSON, text, numbers, arrays, pickles, tensors and unknown parts are loaded directly, in blends and in joins, for all image_decode values. "
    "An own reader of the tar and PIL / json / numpy calls give the expected fields, compared in type, dtype, shape and value after everything was loaded. "
    "Some samples have a part which cannot be decoded. An evaluation is one loaded sample; distinct by type, extension, image format and decoding."
)
ASSUMPTIONS = ["PIL, json, numpy, pickle and torch.load decode correctly", "no video codec is installed: videos are not covered"]

IMAGE_DECODES = ["l8", "rgb8", "rgba8", "l", "rgb", "rgba", "torchl8", "torchrgb8", "torchrgba8", "torchl", "torchrgb", "torch", "torchrgba", "pill", "pil", "pilrgb", "pilrgba"]


def plan(tier):
    need = {"samples": 2500, "images": 1200, "broken": 150, "reported": 80, "crude": 300, "raw": 100, "joined": 100, "blended": 100, "class": 200, "unused_broken": 8}
    if tier == "quick":
        return dict(n=640, shards=8, case_timeout=60, budget=150, min_evals=2500, need_events=need)
    return dict(n=8000, shards=8, case_timeout=60, budget=500, min_evals=40000, need_events=need)


def gen(rng, idx, tier):
    return dict(seed=rng.randrange(1 << 40))


# ---- parts -----------------------------------------------------------------------------------------------------------


def image_bytes(rng, fmt):
    import numpy as np
    from PIL import Image

    h, w = rng.randint(1, 9), rng.randint(1, 9)
    mode = rng.choice({"png": ["RGB", "RGB", "L", "RGBA", "P", "1", "LA"], "jpg": ["RGB", "RGB", "L"], "bmp": ["RGB", "L"], "webp": ["RGB", "RGBA"], "tiff": ["RGB", "L"]}[fmt])
    g = np.random.default_rng(rng.randrange(1 << 30))
    ch = dict(RGB=3, RGBA=4, L=1, P=3, LA=4)
    a = g.integers(0, 256, (h, w, ch.get(mode, 1)), dtype=np.uint8)
    img = Image.fromarray(a[:, :, 0] if a.shape[2] == 1 else a)
    img = img.convert(mode)
    f = io.BytesIO()
    img.save(f, dict(jpg="JPEG").get(fmt, fmt.upper()))
    return f.getvalue()


def image_ref(data, spec):
    import numpy as np
    import torch
    from PIL import Image

    mode = "L" if "l8" in spec or spec in ("l", "torchl", "pill") else "RGBA" if "rgba" in spec else "RGB"
    img = Image.open(io.BytesIO(data)).convert(mode)
    if spec.startswith("pil"):
        return img
    a = np.array(img)
    if not spec.endswith("8"):
        a = a.astype("float32") / np.float32(255)
    if not spec.startswith("torch"):
        return a
    return torch.from_numpy(np.moveaxis(a, -1, 0).copy() if a.ndim == 3 else a)


TEXTS = ["", "text", "ünïcödé ✓", "two\nlines", " spaces ", "\u2028", "0", "null"]


def part(rng, kind, i):
    """(extension, bytes) of a part of a kind."""
    import numpy as np
    import torch

    if kind == "image":
        fmt = rng.choice(["png", "png", "jpg", "bmp", "webp", "tiff"])
        ext = {"jpg": rng.choice(["jpg", "jpeg", "JPG"]), "tiff": rng.choice(["tif", "tiff"])}.get(fmt, fmt)
        return ext, image_bytes(rng, fmt)
    if kind == "text":
        return rng.choice(["txt", "txt", "text", "transcript"]), (rng.choice(TEXTS) + f"{i}").encode()
    if kind == "int":
        return rng.choice(["cls", "cls2", "index", "id"]), str(rng.choice([i, -i, 0, 1 << 40])).encode()
    if kind == "json":
        return rng.choice(["json", "jsn"]), json.dumps(dict(q=f"question {i} ü", a=["yes", f"{i}"], n=i, f=[0.5, i], deep=dict(x=[dict(y=i)]), none=None)).encode()
    if kind == "npy":
        f = io.BytesIO()
        np.save(f, np.arange(i + 1, dtype=rng.choice(["float32", "int64", "uint8"])))
        return "npy", f.getvalue()
    if kind == "pth":
        f = io.BytesIO()
        torch.save(torch.arange(i + 1) * 2, f)
        return "pth", f.getvalue()
    if kind == "pickle":
        import pickle

        return rng.choice(["pkl", "pickle", "pyd"]), pickle.dumps({"i": i, "t": (i, "x")})
    if kind == "bytes":
        return rng.choice(["bin", "foo", "pngx", "xtxt"]), bytes(rng.randrange(256) for _ in range(rng.randint(0, 9)))
    raise KeyError(kind)


KIND_OF = {}
for _k, _es in dict(image="png jpg jpeg bmp webp tif tiff", text="txt text transcript", int="cls cls2 index id", json="json jsn", npy="npy", pth="pth", pickle="pkl pickle pyd").items():
    for _e in _es.split():
        KIND_OF[_e] = _k


def kind_of(ext):
    e = ext.split(".")[-1]
    k = KIND_OF.get(e.lower())
    return k if k == "image" else KIND_OF.get(e, "bytes")


def ref(ext, data, spec):
    import numpy as np
    import torch

    k = kind_of(ext)
    if spec is None or k == "bytes":
        return data
    if k == "image":
        return image_ref(data, spec)
    if k == "text":
        return data.decode()
    if k == "int":
        return int(data)
    if k == "json":
        return json.loads(data)
    if k == "npy":
        return np.load(io.BytesIO(data))
    if k == "pth":
        return torch.load(io.BytesIO(data))
    import pickle

    return pickle.loads(data)


BROKEN = dict(image=[b"", b"no image", b"\x89PNG\r\n\x1a\n"], text=[b"\xff\xfe\xfa"], int=[b"", b"x", b"1.5"], json=[b"", b"{", b"{'a': 1}"], npy=[b"", b"x"], pth=[b"", b"x"], pickle=[b"", b"x"])


def equal(a, b):
    import numpy as np
    import torch
    from PIL import Image

    if isinstance(a, Image.Image) or isinstance(b, Image.Image):
        return isinstance(a, Image.Image) and isinstance(b, Image.Image) and a.mode == b.mode and a.size == b.size and a.tobytes() == b.tobytes()
    if type(a) is not type(b):
        return False
    if isinstance(a, torch.Tensor):
        return a.dtype == b.dtype and a.shape == b.shape and torch.allclose(a, b, atol=1e-6, rtol=0) if a.dtype.is_floating_point else a.dtype == b.dtype and torch.equal(a, b)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool(np.all(np.abs(a - b) < 1e-6) if a.dtype.kind == "f" else np.all(a == b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(equal, a, b))
    return a == b


def brief(x):
    t = f"{type(x).__name__}"
    for n in ("mode", "dtype", "shape", "size"):
        if hasattr(x, n) and not callable(getattr(x, n)):
            t += f" {getattr(x, n)}"
    return t + f" {x!r}"[:160]


# ---- datasets --------------------------------------------------------------------------------------------------------

# Sample types: field -> kinds it can be mapped from ("json:<access>" is an entry of the JSON part)
TYPES = dict(
    Text=dict(text=["text"]), Image=dict(image=["image"]), Captioning=dict(image=["image"], caption=["text", "json:[q]"]),
    ImageClassification=dict(image=["image"], label=["int", "json:[n]"], label_name=["text", None]),
    VQA=dict(image=["image"], context=["text", "json:[q]"], answers=["json:[a]", None], answer_weights=["pth", "json:[f]", None]),
    OCR=dict(image=["image"], text=["text"], block_boxes=["pth", "npy", None], words_text=["json:[a]", None], lines_text=["json:[a]", None]),
    VQAOCR=dict(image=["image"], context=["text"], text=["json:[q]"], answers=["json:[a]", None], words_boxes=["pth", None]),
    MultiChoiceVQA=dict(image=["image"], context=["text"], choices=["json:[a]", None], correct_choice_idx=["int", "json:[n]", None]),
    Interleaved=dict(sequence=["json:[a]", "pickle"]),
    SimilarityInterleaved=dict(images=["pickle", "json:[f]"], texts=["json:[a]"], similarity_matrix=["npy", "pth", None], matched_text_indices=["json:[f]", None]),
)


def gen_cuts(rng, n):
    return sorted(rng.sample(range(1, n), min(n - 1, rng.choice([0, 1, 2]))))


def gen_ds(rng, name, root, kind=None, n=None, keys="k", spec_from=None, cuts=None):
    """A dataset on disk: dict of what it has to deliver."""
    import yaml

    from megatron.energon.flavors import BaseWebdatasetFactory

    kind = kind or rng.choice(list(TYPES) * 2 + ["crude"] * 6)
    n = n or rng.randint(2, 7)
    path = os.path.join(root, name)
    os.makedirs(os.path.join(path, "parts"))
    conf, fmap = {}, {}
    if kind == "crude":
        auto = rng.random() < 0.7
        parts = rng.sample(["image", "image", "text", "int", "json", "npy", "pth", "pickle", "bytes"], rng.randint(1, 5))
        conf = dict(__module__="megatron.energon", __class__="CrudeWebdataset")
        if not auto or rng.random() < 0.3:
            conf["auto_decode"] = auto
    else:
        auto = True
        for f, opts in TYPES[kind].items():
            o = rng.choice(opts)
            if o is not None:
                fmap[f] = o
        parts = [o.split(":")[0] for o in fmap.values()] + rng.sample(["bytes", "int", "text", "image"], rng.randint(0, 2))
        parts = list(dict.fromkeys(parts))
        if rng.random() < 0.3:
            conf = dict(__module__="megatron.energon", __class__=kind + "Webdataset")
        else:
            conf = dict(sample_type=dict(__module__="megatron.energon", __class__=kind + "Sample"))
    # one extension per kind of part, in some datasets behind another one
    exts, used = [], set()
    for k in parts:
        while True:
            e, _ = part(rng, k, 0)
            if rng.random() < 0.2:
                e = rng.choice(["seg", "x", "txt", "a.b"]) + "." + e
            if e not in used and kind_of(e) == k:
                break
        used.add(e)
        exts.append((k, e))
    of = {k: e for k, e in exts}
    if fmap and rng.random() < 0.5:
        # a part that is not used, with a name like that of one which is
        k, e = rng.choice(exts)
        k, e = rng.choice([(k, "seg." + e), (k, "x" + "." + e), ("json", e + ".json")])
        if e not in used:
            used.add(e)
            exts.append((k, e))
    if fmap:
        conf["field_map"] = {f: (of[o] if ":" not in o else of["json"] + o.split(":")[1]) for f, o in fmap.items()}
    yaml_spec = rng.choice([None, None, None] + IMAGE_DECODES)
    if spec_from == "kwargs":
        yaml_spec = None
    if yaml_spec:
        conf["image_decode"] = yaml_spec
    ignore = rng.random() < 0.2
    if ignore:
        conf["ignore_decoder_errors"] = True
    sub = rng.choice([None, {"a": 1, "b": "x"}])
    if sub:
        conf["subflavors"] = dict(sub)
    used_exts = {of[o.split(":")[0]] for o in fmap.values()} if fmap else used
    # samples
    broken_p = rng.choice([0, 0, 0.4])
    samples = []
    cuts = gen_cuts(rng, n) if cuts is None else cuts
    for i in range(n):
        ps, bad = {}, None
        for k, e in exts:
            while True:
                e2, data = part(rng, k, i)
                if k != "image" or e2.lower() in (e.split(".")[-1].lower(), {"jpg": "jpeg", "jpeg": "jpg", "tif": "tiff", "tiff": "tif"}.get(e.split(".")[-1].lower())):
                    break
            ps[e] = data
        if auto and rng.random() < broken_p:
            k, e = rng.choice(exts + exts[-1:])
            if k in BROKEN:
                ps[e] = rng.choice(BROKEN[k])
                if e in used_exts:
                    bad = e
                else:
                    bad = None
                    ps["__unused_broken__"] = True
        samples.append((f"{keys}{i:04d}", ps, bad))
    shards = [samples[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    for s, ss in enumerate(shards):
        with tarfile.open(os.path.join(path, f"parts/d{s}.tar"), "w") as tar:
            for key, ps, _ in ss:
                for e, data in ps.items():
                    if isinstance(data, bytes):
                        ti = tarfile.TarInfo(f"{key}.{e}")
                        ti.size = len(data)
                        tar.addfile(ti, io.BytesIO(data))
    BaseWebdatasetFactory.prepare_dataset(path, [f"parts/d{s}.tar" for s in range(len(shards))], split_parts_ratio=[("val", 1.0)], shuffle_seed=None, workers=1)
    with open(os.path.join(path, ".nv-meta", "dataset.yaml"), "w") as f:
        yaml.safe_dump(conf, f)
    flat = [(f"parts/d{s}.tar/{key}", ps, bad) for s, ss in enumerate(shards) for key, ps, bad in ss]
    return dict(name=name, path=path, kind=kind, fmap=fmap, of=of, yaml=yaml_spec, ignore=ignore, sub=sub or {}, samples=flat, auto=auto, used=used_exts, dep="__class__" in conf and kind != "crude")


def expected(d, ps, spec):
    """Fields of the sample."""
    if d["kind"] == "crude":
        return {e: ref(e, b, spec if d["auto"] else None) for e, b in ps.items() if isinstance(b, bytes)}
    out = {}
    for f, o in d["fmap"].items():
        k = o.split(":")[0]
        v = ref(d["of"][k], ps[d["of"][k]], spec)
        out[f] = v[o.split(":")[1][1:-1]] if ":" in o else v
    return out


def cook(sample):
    from megatron.energon import basic_sample_keys

    from harness.samples import JA

    return JA(**basic_sample_keys(sample), a=dict(sample))


def pair(x, y):
    from harness.samples import JoinedPair

    return JoinedPair.derive_from(x, x=x, y=y)


def run_case(case, rec):
    import random

    import yaml
    from megatron.energon import Cooker, TaskEncoder, WorkerConfig, get_train_dataset, get_val_dataset

    from harness import emul
    from harness.resume import reset_globals

    reset_globals()
    rng = random.Random(case["seed"])
    mode = rng.choice(["direct", "direct", "direct", "blend", "join"])
    spec = rng.choice([None] + IMAGE_DECODES)
    src = "kwargs" if spec else None
    if mode == "direct":
        ds = [gen_ds(rng, "a", rec.tmp, spec_from=src)]
        path = ds[0]["path"]
    elif mode == "blend":
        ds = [gen_ds(rng, n, rec.tmp, spec_from=src, keys=n) for n in "ab"]
        path = os.path.join(rec.tmp, "m.yaml")
        entries = [dict(path=n) for n in "ab"]
        yaml.safe_dump(dict(__module__="megatron.energon", __class__="MetadatasetV2", splits={s: dict(blend=[dict(e, weight=1) for e in entries]) for s in ("train", "val")}), open(path, "w"))
    else:
        n = rng.randint(2, 6)
        spec = None  # a join does not take image_decode, its members have it in their configuration
        cuts = gen_cuts(rng, n)
        ds = [gen_ds(rng, nm, rec.tmp, kind=rng.choice(list(TYPES)), n=n, cuts=cuts) for nm in "ab"]
        path = os.path.join(rec.tmp, "j.yaml")
        yaml.safe_dump(dict(__module__="megatron.energon", __class__="MetadatasetV2", splits={s: dict(join=[dict(path="a"), dict(path="b")], joiner=dict(__module__="harness.checks.c31", __function__="pair")) for s in ("train", "val")}), open(path, "w"))
    rec.arm()
    calls = []

    def handler(e, key):
        calls.append((key, type(e).__name__))

    class Te(TaskEncoder):
        cookers = [Cooker(cook)]

    wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
    kw = dict(image_decode=spec) if spec else {}
    train = rng.random() < 0.3 and mode != "blend" and all(not bad for d in ds for _, _, bad in d["samples"])
    if train:
        dset = get_train_dataset(path, split_part="val", worker_config=wc, batch_size=None, shuffle_buffer_size=None, max_samples_per_sequence=None, task_encoder=Te(), handler=handler, **kw)
    else:
        dset = get_val_dataset(path, worker_config=wc, batch_size=None, task_encoder=Te(), handler=handler, **kw)
    total = len(ds[0]["samples"]) if mode == "join" else sum(len(d["samples"]) for d in ds)
    got = []
    e = emul.EmuWorker(dset, wc, 0)
    for _ in range(total if train else total + 1):
        x = e.next()
        if x is emul.END:
            break
        got.append(x)
    # what is expected
    specs = [d["yaml"] or spec or "torchrgb" for d in ds]
    want, reports = [], []
    if mode == "join":
        for (ka, pa, ba), (kb, pb, bb) in zip(*(d["samples"] for d in ds)):
            hit = next((d for d, b in zip(ds, (ba, bb)) if b), None)
            if hit is None:
                want.append((ka, [(d, p, s) for d, p, s in zip(ds, (pa, pb), specs)]))
            elif not hit["ignore"]:
                reports.append(ka)
    else:
        for d, s in zip(ds, specs):
            for k, p, bad in d["samples"]:
                if not bad:
                    want.append((k, [(d, p, s)]))
                elif not d["ignore"]:
                    reports.append(k)
                rec.ev("broken", bool(bad))
                rec.ev("unused_broken", "__unused_broken__" in p)
    rec.ev("reported", len(reports))
    where = f"{mode} {[d['kind'] for d in ds]} image_decode={spec} (in the datasets: {[d['yaml'] for d in ds]})"
    keyof = lambda x: x.__key__ if hasattr(x, "__key__") else x["__key__"]
    gk, wk = [keyof(x) for x in got], [k for k, _ in want]
    if train:
        gk, got = zip(*sorted(zip(gk, got), key=lambda t: t[0])) if gk else ([], [])
        want.sort(key=lambda t: t[0])
        wk = [k for k, _ in want]
    if not rec.check(list(gk) == wk, "samples", lambda: f"{where}: samples {list(gk)} instead of {wk}; handler calls {calls}"):
        return
    rk = [k.split(",")[0] if isinstance(k, str) else k for k, _ in calls]
    rec.check(rk == reports, "reports", lambda: f"{where}: the handler got {calls} instead of {reports}, samples with a part that cannot be decoded")
    for x, (k, ms) in zip(got, want):
        objs = [x.x, x.y] if mode == "join" else [x]
        for o, (d, ps, s) in zip(objs, ms):
            rec.ev("samples")
            rec.ev({"join": "joined", "blend": "blended"}.get(mode, "direct"))
            exp = expected(d, ps, s)
            if d["kind"] == "crude":
                rec.ev("crude" if d["auto"] else "raw")
                have = {f: v for f, v in o.a.items() if not f.startswith("__")}
                if not rec.check(set(have) == set(exp), "parts", lambda: f"{where}: parts {sorted(have)} of the crude sample {k} instead of {sorted(exp)}"):
                    continue
                from megatron.energon.flavors.crude import CrudeSample

                rec.check(d["auto"] is not None and o.a["__subflavors__"] == d["sub"], "subflavors", lambda: f"{where}: subflavors {o.a['__subflavors__']} instead of {d['sub']}")
            else:
                rec.ev("class", d["dep"])
                if not rec.check(type(o).__name__ == d["kind"] + "Sample", "type", lambda: f"{where}: {type(o).__name__} instead of {d['kind']}Sample"):
                    continue
                rec.check(o.__subflavors__ == d["sub"], "subflavors", lambda: f"{where}: subflavors {o.__subflavors__} instead of {d['sub']}")
                have = {f.name: getattr(o, f.name) for f in dataclasses.fields(o) if not f.name.startswith("__")}
                for f in dataclasses.fields(o):
                    if f.name in have and f.name not in exp:
                        exp[f.name] = f.default if f.default is not dataclasses.MISSING else f.default_factory()
            rec.evaluated(short([d["kind"], mode, s if any(kind_of(e) == "image" for e in d["used"]) else "", sorted(d["used"])]))
            for f, v in exp.items():
                rec.ev("images", int(type(v).__name__ in ("Tensor", "ndarray", "Image")))
                rec.check(equal(have[f], v), f"field:{kind_of(f) if d['kind'] == 'crude' else 'mapped'}",
                          lambda: f"{where}: {d['kind']} {k} field {f} ({d['fmap'].get(f, '')}): {brief(have[f])} instead of {brief(v)}")
