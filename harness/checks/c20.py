"""C20: default batching keeps each sample's values, padded only where documented."""
import collections
import copy
import dataclasses
import enum

from harness.fp import short

PROPERTY = "C20"
LEVEL = "exploration"
RULE = (
    "Random batches (1-8 samples; dict, dataclass, named-tuple and Sample types with nested structures; tensors of all "
    "dtypes, 0-4 dims, equal or different shapes, empty, non-contiguous; strings, lists, numbers, None, objects) go through "
    "generic_batch, batch_stack, batch_pad_stack, batch_list, TaskEncoder._batch with per-field actions, and the "
    "default task encoders including their type conversions. The oracle cuts the padding off each row and compares it "
    "with the (deep-copied) input, requires zeros elsewhere, the per-dimension maximum as size, and every other value at its "
    "index; the inputs must be unmodified. Batches are also concatenated (homogeneous_concat_mix), with the same oracle per batch. An evaluation is one batch; distinct by structure and shapes."
)
ASSUMPTIONS = ["all samples of a batch have the same structure: the same fields, and tensors of equal dimensionality in a field"]


def plan(tier):
    need = {"tensor_fields": 8000, "padded": 2500, "stacked": 3000, "other_fields": 5000, "nested": 2000, "actions": 800,
            "mixed_dtype": 60, "empty": 200, "task_encoder": 800, "conversion": 300, "zero_dim": 300, "mismatch_raises": 50, "concat": 1000, "concat_padded": 400}
    if tier == "quick":
        return dict(n=10000, shards=6, case_timeout=60, budget=120, min_evals=6000, need_events=need)
    return dict(n=150000, shards=8, case_timeout=60, budget=500, min_evals=80000, need_events=need)


def gen(rng, idx, tier):
    return dict(seed=rng.randrange(1 << 40))


class Color(enum.Enum):
    RED = 1
    BLUE = 2


@dataclasses.dataclass
class Inner:
    a: object
    b: object


@dataclasses.dataclass(frozen=True)
class Frozen:
    a: object
    __x__: object = None


Pair = collections.namedtuple("Pair", ["a", "b"])
Triple = collections.namedtuple("Triple", ["c", "a", "d"])


class Obj:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is Obj and o.v == self.v


_types = {}


def dc_type(names, named_tuple=False):
    key = (tuple(names), named_tuple)
    if key not in _types:
        if named_tuple:
            _types[key] = collections.namedtuple("NT", [n.strip("_") for n in names])
        else:
            _types[key] = dataclasses.make_dataclass("DC" + str(len(_types)), [(n, object) for n in names])
    return _types[key]


def sample_type():
    if "sample" not in _types:
        from megatron.energon import Sample

        @dataclasses.dataclass
        class S(Sample):
            image: object
            text: object
            extra: object = None

        @dataclasses.dataclass
        class SBatch:
            __key__: object
            __restore_key__: object
            __subflavor__: object
            __subflavors__: object
            image: object
            text: object
            extra: object

        _types["sample"] = S, SBatch
    return _types["sample"]


# ---- values ----------------------------------------------------------------------------------------------------------


def gen_field(rng, depth, want=None):
    """Description of a field: the same for all samples of a batch."""
    k = want or rng.choice(["tensor"] * 5 + ["str", "list", "num", "none", "obj", "tuple", "mixed", "enum", "np"] + (["dict", "dc", "nt", "frozen"] * 2 if depth > 0 else []))
    if k == "tensor":
        nd = rng.choice([0, 1, 1, 2, 3, 4])
        dts = ["float32", "int64", "uint8", "float16", "bfloat16", "bool", "float64", "int32", "complex64"]
        return dict(k=k, nd=nd, dtype=rng.choice(dts), mixed=rng.random() < 0.08, same=rng.choice([True, False, False]),
                    shape=[rng.choice([0, 1, 2, 3, 5]) if rng.random() < 0.15 else rng.randint(1, 5) for _ in range(nd)], layout=rng.choice(["c", "c", "t", "s"]))
    if k == "dict":
        names = rng.sample(["a", "b", "x y", "__k__", 7, ("t", 1)], rng.randint(0, 3))
        return dict(k=k, f=[(n, gen_field(rng, depth - 1)) for n in names])
    if k in ("dc", "nt"):
        return dict(k=k, f=[(n, gen_field(rng, depth - 1)) for n in ("a", "b")])
    if k == "frozen":
        return dict(k=k, f=[(n, gen_field(rng, depth - 1)) for n in ("a", "__x__")])
    return dict(k=k)


def value(rng, d, i):
    import numpy as np
    import torch

    k = d["k"]
    if k == "tensor":
        shape = d["shape"] if d["same"] else [rng.choice([s, rng.randint(0, 6)]) for s in d["shape"]]
        dt = getattr(torch, rng.choice(["int64", "float32", "float64", "uint8"]) if d["mixed"] else d["dtype"])
        g = torch.Generator().manual_seed(rng.randrange(1 << 30))
        t = torch.randint(1, 100, shape, generator=g)
        if dt.is_floating_point:
            t = t.to(dt) / 4
        t = (t % 2 == 0) if dt is torch.bool else t.to(dt)
        if d["layout"] == "t" and t.ndim >= 2:
            t = t.transpose(0, 1).contiguous().transpose(0, 1)
        elif d["layout"] == "s" and t.ndim >= 1:
            b = torch.zeros([2 * s for s in t.shape], dtype=dt)
            v = b[tuple(slice(None, None, 2) for _ in t.shape)]
            v.copy_(t)
            t = v
        return t
    if k in ("dict", "dc", "nt", "frozen"):
        f = {n: value(rng, s, i) for n, s in d["f"]}
        return f if k == "dict" else (Inner(**f) if k == "dc" else Frozen(**f) if k == "frozen" else Pair(**f))
    return {
        "str": lambda: rng.choice(["", f"text {i}", "ü" * i]),
        "list": lambda: [rng.randint(0, 9) for _ in range(rng.randint(0, 3))],
        "tuple": lambda: tuple(rng.randint(0, 9) for _ in range(rng.randint(0, 3))),
        "num": lambda: rng.choice([i, i / 2, True]),
        "none": lambda: None,
        "obj": lambda: Obj(i),
        "mixed": lambda: rng.choice(["s", 1, None, [1], (2,)]),
        "enum": lambda: rng.choice(list(Color)),
        "np": lambda: np.full((2,), i),
    }[k]()


def exact(a, b):
    import numpy as np
    import torch

    if type(a) is not type(b):
        return False
    if isinstance(a, torch.Tensor):
        return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, np.ndarray):
        return bool((a == b).all())
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(exact(a[k], b[k]) for k in a)
    if dataclasses.is_dataclass(a):
        return all(exact(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(exact, a, b))
    return a == b


class Bad(Exception):
    pass


def get(x, n):
    return x[n] if isinstance(x, dict) else getattr(x, n)


def names(x):
    if isinstance(x, dict):
        return list(x)
    if dataclasses.is_dataclass(x):
        return [f.name for f in dataclasses.fields(x)]
    return list(x._fields)


def check_batched(rec, desc, inputs, out, path="batch", check_tensor=None):
    """The oracle: `out` is the batch of the values `inputs` of one field."""
    import torch

    k = desc["k"]
    check_tensor = check_tensor or check_stacked
    if k == "tensor":
        check_tensor(rec, inputs, out, path)
    elif k in ("dict", "dc", "nt", "frozen"):
        rec.ev("nested")
        if type(out) is not type(inputs[0]):
            raise Bad(f"{path}: type {type(out).__name__} instead of {type(inputs[0]).__name__}")
        want = [n for n, _ in desc["f"]]
        if names(out) != want:
            raise Bad(f"{path}: fields {names(out)} instead of {want}")
        for n, s in desc["f"]:
            check_batched(rec, s, [get(x, n) for x in inputs], get(out, n), f"{path}.{n}", check_tensor)
    else:
        check_list(rec, inputs, out, path)


def check_list(rec, inputs, out, path):
    rec.ev("other_fields")
    if type(out) is not list or len(out) != len(inputs):
        raise Bad(f"{path}: {out!r} instead of the list of the {len(inputs)} values")
    for i, (a, b) in enumerate(zip(inputs, out)):
        if not exact(a, b):
            raise Bad(f"{path}: value {i} is {b!r} instead of {a!r}")


def check_stacked(rec, inputs, out, path):
    import torch

    rec.ev("tensor_fields")
    if not isinstance(out, torch.Tensor):
        raise Bad(f"{path}: {type(out).__name__} instead of a tensor")
    shapes = [tuple(t.shape) for t in inputs]
    size = (len(inputs), *(max(s[d] for s in shapes) for d in range(len(shapes[0]))))
    if tuple(out.shape) != size:
        raise Bad(f"{path}: shape {tuple(out.shape)} instead of {size} for tensors of {shapes}")
    if len({t.dtype for t in inputs}) == 1:
        if out.dtype != inputs[0].dtype:
            raise Bad(f"{path}: dtype {out.dtype} instead of {inputs[0].dtype}")
    else:
        rec.ev("mixed_dtype")
    rec.ev("padded" if len(set(shapes)) > 1 else "stacked")
    rec.ev("empty", sum(t.numel() == 0 for t in inputs))
    rec.ev("zero_dim", int(inputs[0].ndim == 0))
    for i, t in enumerate(inputs):
        idx = tuple(slice(0, s) for s in t.shape)
        rest = out[i].clone()
        if not bool((rest[idx] == t).all()):
            raise Bad(f"{path}: row {i} without padding is {rest[idx].tolist()} ({out.dtype}) instead of {t.tolist()} ({t.dtype})")
        rest[idx] = 0
        if bool((rest != 0).any()):
            raise Bad(f"{path}: row {i}: the padding is not zero")


def check_concat(rec, inputs, out, path):
    """Batches one after the other: the rows of each, padded to the largest."""
    import torch

    rec.ev("concat")
    if not isinstance(out, torch.Tensor) or out.dtype != inputs[0].dtype:
        raise Bad(f"{path}: {type(out).__name__} {getattr(out, 'dtype', '')} instead of a tensor of {inputs[0].dtype}")
    shapes = [tuple(t.shape) for t in inputs]
    size = (sum(s[0] for s in shapes), *(max(s[d] for s in shapes) for d in range(1, len(shapes[0]))))
    if tuple(out.shape) != size:
        raise Bad(f"{path}: shape {tuple(out.shape)} instead of {size} for batches of shapes {shapes}")
    rec.ev("concat_padded", int(len({s[1:] for s in shapes}) > 1))
    at = 0
    for i, t in enumerate(inputs):
        rest = out[at : at + t.shape[0]].clone()
        at += t.shape[0]
        idx = tuple(slice(0, s) for s in t.shape)
        if not bool((rest[idx] == t).all()):
            raise Bad(f"{path}: batch {i} of {len(inputs)} without padding is {rest[idx].tolist()} instead of {t.tolist()}")
        rest[idx] = 0
        if bool((rest != 0).any()):
            raise Bad(f"{path}: batch {i}: the padding is not zero")


def concat_field(d):
    """Only tensors with a batch dimension and of one type."""
    if d["k"] == "tensor":
        d["mixed"] = False
        if d["nd"] == 0:
            d.update(nd=1, shape=[2])
    for _, f in d.get("f", ()):
        concat_field(f)
    return d


# ---- runs ------------------------------------------------------------------------------------------------------------


def run_case(case, rec):
    import random

    from megatron.energon import DefaultTaskEncoder
    from megatron.energon.task_encoder.base import AugmentTaskEncoder, TaskEncoder, batch_list, batch_pad_stack, batch_stack, generic_batch

    rng = random.Random(case["seed"])
    n = rng.choice([1, 2, 2, 3, 5, 8])
    mode = rng.choice(["generic", "_batch", "te", "te", "sample", "stack", "mismatch", "concat"])
    if mode == "_batch" and not hasattr(TaskEncoder, "_batch"):
        mode = "te"
    try:
        if mode == "generic":
            d = gen_field(rng, 2)
            ins = [value(rng, d, i) for i in range(n)]
            rec.evaluated(short([mode, d, n]))
            orig = copy.deepcopy(ins)
            out = generic_batch(ins)
            check_batched(rec, d, orig, out)
        elif mode == "stack":
            d = gen_field(rng, 0, "tensor")
            d["mixed"] = False
            d["same"] = True
            ins = [value(rng, d, i) for i in range(n)]
            rec.evaluated(short([mode, d, n]))
            orig = copy.deepcopy(ins)
            check_stacked(rec, orig, batch_stack(ins), "batch_stack")
            check_stacked(rec, orig, batch_pad_stack(ins), "batch_pad_stack")
            check_list(rec, orig, batch_list(ins), "batch_list")
        elif mode == "concat":
            from megatron.energon.wrappers.mix_batch_dataset import concat_pad, generic_concat, homogeneous_concat_mix

            d = concat_field(gen_field(rng, 2, rng.choice([None, "tensor", "dict", "dc", "nt"])))
            ins = [value(rng, d, i) for i in range(n)]
            rec.evaluated(short([mode, d, n]))
            orig = copy.deepcopy(ins)
            check_batched(rec, d, orig, generic_concat(ins), check_tensor=check_concat)
            if d["k"] == "tensor":
                check_concat(rec, orig, concat_pad(ins), "concat_pad")
            if len({type(x) for x in ins}) == 1:
                check_batched(rec, d, orig, homogeneous_concat_mix(ins), check_tensor=check_concat)
            else:
                try:
                    out = homogeneous_concat_mix(ins)
                except Exception:
                    rec.ev("mismatch_raises")
                else:
                    raise Bad(f"batches of types {[type(x).__name__ for x in ins]} mixed to {out!r}")
        elif mode == "mismatch":
            # other dimensionality: not batchable, must not be broadcast
            d1, d2 = gen_field(rng, 0, "tensor"), gen_field(rng, 0, "tensor")
            d1["mixed"] = d2["mixed"] = False
            if d1["nd"] == d2["nd"]:
                d2["nd"] = d1["nd"] + 1
                d2["shape"] = d1["shape"] + [rng.randint(1, 3)]
            ins = [value(rng, d1, 0), value(rng, d2, 1)]
            rng.shuffle(ins)
            rec.evaluated(short([mode, [list(t.shape) for t in ins]]))
            orig = copy.deepcopy(ins)
            try:
                out = batch_pad_stack(ins)
            except Exception:
                rec.ev("mismatch_raises")
            else:
                raise Bad(f"tensors of shapes {[list(t.shape) for t in ins]} batched to {list(out.shape)}: {out.tolist()}")
        else:
            run_samples(case, rec, rng, n, mode)
            return
        if not exact(orig, ins):
            raise Bad("the input samples were modified")
    except Bad as e:
        rec.violation(f"batch_{mode}", str(e))


def run_samples(case, rec, rng, n, mode):
    from megatron.energon import DefaultTaskEncoder
    from megatron.energon.task_encoder.base import AugmentTaskEncoder, TaskEncoder, batch_list, generic_batch

    if mode == "sample":
        cls, bcls = sample_type()
        desc = {"image": gen_field(rng, 0, "tensor"), "text": gen_field(rng, 0), "extra": gen_field(rng, 1)}
        samples = [
            cls(__key__=f"k{i}", __restore_key__=("W", i), __subflavor__=rng.choice([None, "x"]),
                __subflavors__=rng.choice([{}, {"a": i}, {"b": 1, "a": i}, None]), **{f: value(rng, d, i) for f, d in desc.items()})
            for i in range(n)
        ]
        desc = {"__key__": dict(k="str"), "__restore_key__": dict(k="tuple"), "__subflavor__": dict(k="mixed"), "__subflavors__": dict(k="mixed"), **desc}
        kind = "sample"
    else:
        kind = rng.choice(["dict", "dc", "nt"])
        fields = rng.sample(["image", "text", "a", "b", "__key__", "zz"], rng.randint(1, 4))
        if kind == "nt":
            fields = [f.strip("_") for f in fields]
        desc = {f: gen_field(rng, 1) for f in fields}
        mk = dict if kind == "dict" else dc_type(fields, kind == "nt")
        samples = [mk(**{f: value(rng, d, i) for f, d in desc.items()}) for i in range(n)]
    fields = list(desc)
    orig = copy.deepcopy(samples)
    rec.evaluated(short([mode, kind, n, desc]))

    def verify(out, rtype, acts):
        if rtype is dict and type(out) is not dict or rtype is not dict and type(out) is not rtype:
            raise Bad(f"result type {type(out).__name__} instead of {rtype.__name__}")
        if sorted(names(out)) != sorted(fields):
            raise Bad(f"fields {names(out)} instead of {fields}")
        for f in fields:
            vals = [get(s, f) for s in orig]
            if f in acts:
                check_list(rec, [(f, *vals)], get(out, f), f)
            else:
                check_batched(rec, desc[f], vals, get(out, f), f)
        if not exact(orig, samples):
            raise Bad("the input samples were modified")

    own = type(samples[0])
    others = [dict, dc_type(fields)] + ([dc_type(fields, True)] if not any("__" in f for f in fields) else [])
    if mode == "_batch":
        rtype = rng.choice([own] + others)
        acts = {f: (lambda v, f=f: [(f, *v)]) for f in fields if rng.random() < 0.3}
        default = rng.choice([generic_batch, None])
        kw = {}
        if acts or rng.random() < 0.5:
            kw["actions"] = dict(acts, unused=lambda v: 1 / 0)
            rec.ev("actions", len(acts))
        if kind == "sample":
            acts = kw.setdefault("actions", {})
            acts["__subflavors__"] = acts.get("__subflavors__", batch_list)
            acts = {f: a for f, a in acts.items() if f in fields and a is not batch_list}
        if default is None:
            kw["default_action"] = lambda v: list(reversed(v))
            out = TaskEncoder()._batch(samples, rtype, **kw)
            for f in fields:
                vals = [get(s, f) for s in orig]
                if f in kw.get("actions", {}):
                    check_list(rec, [(f, *vals)] if f in acts else vals, get(out, f), f)
                else:
                    check_list(rec, vals[::-1], get(out, f), f)
            return
        out = TaskEncoder()._batch(samples, rtype, **kw)
        verify(out, rtype, acts)
        return
    # the default encoders
    rec.ev("task_encoder")
    conv = rng.random() < 0.5
    raw_t, batch_t = (rng.choice([None] + others), rng.choice([None] + others)) if conv else (None, None)
    enc_t = rng.choice([None] + others) if conv and kind != "sample" else None
    te = DefaultTaskEncoder(encoded_sample_type=enc_t, raw_batch_type=raw_t, batch_type=batch_t)
    if not conv and kind != "sample" and rng.random() < 0.5:
        te = TaskEncoder()
    elif not conv and rng.random() < 0.3:
        te = AugmentTaskEncoder(te)
    if conv:
        rec.ev("conversion")
    enc = [te.encode_sample(s) for s in samples]
    for s, o in zip(enc, orig):
        if enc_t is not None and type(s) is not enc_t:
            raise Bad(f"encoded sample is {type(s).__name__} instead of {enc_t.__name__}")
        for f in fields:
            if not exact(get(s, f), get(o, f)):
                raise Bad(f"encoded sample: {f} is {get(s, f)!r} instead of {get(o, f)!r}")
    out = te.encode_batch(te.batch(enc))
    verify(out, batch_t or raw_t or type(enc[0]), {})
