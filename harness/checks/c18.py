"""C18: typed configuration parsing accepts exactly well-typed data, losslessly."""
import copy
import dataclasses
import inspect
import json
import random
import typing
from typing import Any, Dict, List, Literal, Optional, Set, Tuple, Union

from harness.fp import short

PROPERTY = "C18"
LEVEL = "exploration"
RULE = (
    "Random types (primitives, Any, None, Literal, Union / Optional / X|Y, dataclasses and named tuples with defaults, nested "
    "List / Set / Tuple / Dict, EPath) and for each valid raw data and variations of it (other types, missing, additional or null "
    "entries, other lengths) go through raw_to_typed, strict or not, and back through to_json_object; random functions "
    "and classes are called with raw dicts and lists; dataclass and named-tuple objects are overridden. An independent "
    "converter decides acceptance and value (type-exact, except int for float). An evaluation is one conversion or call; "
    "distinct by type and data."
)
ASSUMPTIONS = [
    "annotations are types (no strings), of the supported kinds; other classes pass values through",
    "as in Python, a bool is an int; unions take the first matching member",
]


def plan(tier):
    need = {"accepted": 10000, "rejected": 8000, "roundtrip": 8000, "defaults_used": 1500, "strict_rejects": 200, "calls": 4000,
            "call_list": 1000, "call_rejects": 800, "override": 800, "instances": 200, "metadata": 200}
    if tier == "quick":
        return dict(n=2500, shards=6, case_timeout=60, budget=120, min_evals=20000, need_events=need)
    return dict(n=60000, shards=8, case_timeout=60, budget=500, min_evals=300000, need_events=need)


def gen(rng, idx, tier):
    return dict(seed=rng.randrange(1 << 40))


class Mismatch(Exception):
    pass


# ---- types: description -> python type -------------------------------------------------------------------------------

PRIMS = ["str", "int", "float", "bool"]


def gen_type(rng, depth, hashable=False, default=False):
    """Nested description of a type."""
    r = rng.random()
    if hashable:
        return dict(k=rng.choice(PRIMS))
    if depth <= 0 or r < 0.35:
        k = rng.choice(PRIMS * 3 + ["any", "none", "literal", "epath", "dict0", "list0"])
        return dict(k=k, v=rng.sample(["a", "b", "c d", 3, -4], rng.randint(1, 3))) if k == "literal" else dict(k=k)
    k = rng.choice(["list", "list", "set", "tuple", "vtuple", "dict", "dict", "opt", "union", "dc", "dc", "nt", "nt"])
    if k in ("list", "vtuple", "dict"):
        return dict(k=k, t=gen_type(rng, depth - 1), bare=k != "vtuple" and rng.random() < 0.1)
    if k == "set":
        return dict(k=k, t=gen_type(rng, 0, True))
    if k == "tuple":
        return dict(k=k, t=[gen_type(rng, depth - 1) for _ in range(rng.randint(1, 3))])
    if k == "opt":
        return dict(k="union", t=[gen_type(rng, depth - 1), dict(k="none")], new=rng.random() < 0.3)
    if k == "union":
        # members of distinct kinds: otherwise the round trip is ambiguous
        kinds = rng.sample(["str", "int", "listlike", "dictlike", "none"], rng.randint(2, 3))
        t = []
        for m in kinds:
            if m == "listlike":
                t.append(dict(k="list", t=gen_type(rng, depth - 1)))
            elif m == "dictlike":
                x = gen_type(rng, depth)
                while x["k"] not in ("dc", "nt", "dict"):
                    x = gen_type(rng, depth)
                t.append(x)
            else:
                t.append(dict(k=m if m != "int" else rng.choice(["int", "float", "bool"])))
        return dict(k="union", t=t, new=rng.random() < 0.3)
    fields = []
    for n in rng.sample(["a", "b", "x_y", "_q" if k == "dc" else "q", "count", "name"], rng.randint(0 if k == "dc" else 1, 4)):
        t = gen_type(rng, depth - 1)
        d = dict(n=n, t=t)
        if rng.random() < 0.4:
            d["default"] = gen_raw(rng, t) if rng.random() < 0.9 else None
            d["null"] = d["default"] is None
            try:
                d["null"] or Types().ref(d["default"], t, True)
            except Mismatch:  # rejected by a __post_init__
                del d["default"]
        fields.append(d)
    fields.sort(key=lambda d: "default" in d)
    return dict(k=k, f=fields, post=k == "dc" and rng.random() < 0.1)


class Types:
    def __init__(self):
        self.cache = {}

    def get(self, d):
        key = id(d)
        if key not in self.cache:
            self.cache[key] = (self.make(d), d)
        return self.cache[key][0]

    def make(self, d):
        from megatron.energon.epathlib import EPath

        k = d["k"]
        if k in PRIMS:
            return dict(str=str, int=int, float=float, bool=bool)[k]
        if k == "any":
            return Any
        if k == "none":
            return None
        if k == "literal":
            return Literal[tuple(d["v"])]
        if k == "epath":
            return EPath
        if k == "dict0":
            return dict
        if k == "list0":
            return list
        if k == "list":
            return List if d.get("bare") else List[self.get(d["t"])]
        if k == "set":
            return Set[self.get(d["t"])]
        if k == "vtuple":
            return Tuple[self.get(d["t"]), ...]
        if k == "dict":
            return Dict if d.get("bare") else Dict[str, self.get(d["t"])]
        if k == "tuple":
            return Tuple[tuple(self.get(t) for t in d["t"])]
        if k == "union":
            ts = [self.get(t) for t in d["t"]]
            if d.get("new"):
                try:
                    u = ts[0]
                    for t in ts[1:]:
                        u = u | t
                    return u
                except TypeError:
                    pass
            return Union[tuple(ts)]
        if k == "dc":
            fs = []
            for f in d["f"]:
                t = self.get(f["t"])
                if "default" in f:
                    v = None if f["null"] else self.ref(f["default"], f["t"], True)
                    fs.append((f["n"], t, dataclasses.field(default_factory=lambda v=v: copy.deepcopy(v))))
                else:
                    fs.append((f["n"], t))

            def __post_init__(self):
                if getattr(self, "a", None) == "":
                    raise RuntimeError("invalid")

            return dataclasses.make_dataclass(f"D{len(self.cache)}", fs, namespace=dict(__post_init__=__post_init__) if d["post"] else {})
        if k == "nt":
            t = typing.NamedTuple(f"N{len(self.cache)}", [(f["n"], self.get(f["t"])) for f in d["f"]])
            defaults = {f["n"]: None if f["null"] else self.ref(f["default"], f["t"], True) for f in d["f"] if "default" in f}
            if not defaults:
                return t
            # a class like "class N(NamedTuple): a: A = default" makes
            t.__new__.__defaults__ = tuple(defaults.values())
            t._field_defaults = defaults
            return t
        raise ValueError(k)

    # The independent converter
    def ref(self, raw, d, strict, ev=None):
        from megatron.energon.epathlib import EPath

        k = d["k"]
        if k in PRIMS:
            ok = {"str": str, "int": int, "float": (int, float), "bool": bool}[k]
            if not isinstance(raw, ok):
                raise Mismatch
            return raw
        if k == "any":
            return raw
        if k == "none":
            if raw is not None:
                raise Mismatch
            return None
        if k == "literal":
            if raw not in d["v"]:
                raise Mismatch
            return raw
        if k == "epath":
            if not isinstance(raw, str):
                raise Mismatch
            return EPath(raw)
        if k in ("dict0", "list0"):
            if not isinstance(raw, dict if k == "dict0" else list):
                raise Mismatch
            return raw
        if k == "dict":
            if not isinstance(raw, dict):
                raise Mismatch
            return {n: v if d.get("bare") else self.ref(v, d["t"], strict, ev) for n, v in raw.items()}
        if k in ("list", "set", "vtuple", "tuple"):
            if not isinstance(raw, list):
                raise Mismatch
            if k == "tuple":
                if len(raw) != len(d["t"]):
                    raise Mismatch
                return tuple(self.ref(v, t, strict, ev) for v, t in zip(raw, d["t"]))
            vals = [v if d.get("bare") else self.ref(v, d["t"], strict, ev) for v in raw]
            if k == "set" and len(set(vals)) < len(vals):
                raise Mismatch
            return {"list": list, "set": set, "vtuple": tuple}[k](vals)
        if k == "union":
            for t in d["t"]:
                try:
                    return self.ref(raw, t, strict, ev)
                except Mismatch:
                    pass
            raise Mismatch
        cls = self.get(d)
        if not isinstance(raw, dict):
            raise Mismatch
        vals = {}
        for f in d["f"]:
            if f["n"] in raw:
                vals[f["n"]] = self.ref(raw[f["n"]], f["t"], strict, ev)
            elif "default" in f:
                if ev:
                    ev("defaults_used")
                vals[f["n"]] = None if f["null"] else self.ref(f["default"], f["t"], True)
            else:
                raise Mismatch
        if strict and set(raw) - set(vals):
            if ev:
                ev("strict_rejects")
            raise Mismatch
        if d.get("post") and vals.get("a") == "":
            raise Mismatch
        return cls(**vals)


ANY = [None, 0, 1, -2, 1.5, True, False, "", "a", "text", [], {}, [1], {"a": 1}, {"x": [None]}, "1"]


def gen_raw(rng, d):
    """Valid raw data of a type."""
    k = d["k"]
    if k == "str":
        return rng.choice(["", "a", "text", "ü,", "1", "None"])
    if k == "int":
        return rng.choice([0, 1, -7, 2**60])
    if k == "float":
        return rng.choice([0.0, 1.5, -2e30, 3])
    if k == "bool":
        return rng.random() < 0.5
    if k == "any":
        return copy.deepcopy(rng.choice(ANY))
    if k == "none":
        return None
    if k == "literal":
        return rng.choice(d["v"])
    if k == "epath":
        return rng.choice(["/a/b", "/x/y.z", "/"])
    if k == "dict0":
        return rng.choice([{}, {"a": 1, "b": [2]}])
    if k == "list0":
        return rng.choice([[], [1, "a", None]])
    if k == "dict":
        return {n: gen_raw(rng, d["t"]) for n in rng.sample(["a", "b", "c-d", "e f", ""], rng.randint(0, 3))}
    if k in ("list", "vtuple"):
        return [gen_raw(rng, d["t"]) for _ in range(rng.randint(0, 3))]
    if k == "set":
        vals = []
        for _ in range(3):
            v = gen_raw(rng, d["t"])
            if v not in vals:
                vals.append(v)
        return vals
    if k == "tuple":
        return [gen_raw(rng, t) for t in d["t"]]
    if k == "union":
        return gen_raw(rng, rng.choice(d["t"]))
    return {f["n"]: gen_raw(rng, f["t"]) for f in d["f"] if "default" not in f or rng.random() < 0.5}


def vary(rng, raw):
    """Raw data with one random change somewhere."""
    if isinstance(raw, dict) and raw and rng.random() < 0.75:
        k = rng.choice(list(raw))
        r = rng.random()
        res = dict(raw)
        if r < 0.15:
            del res[k]
        elif r < 0.3:
            res[rng.choice(["extra", "A", "b ", "name"])] = rng.choice(ANY)
        elif r < 0.4:
            res[k + "_"] = res.pop(k)
        else:
            res[k] = vary(rng, raw[k])
        return res
    if isinstance(raw, list) and raw and rng.random() < 0.75:
        i = rng.randrange(len(raw))
        r = rng.random()
        if r < 0.15:
            return raw[:i] + raw[i + 1 :]
        if r < 0.3:
            return raw[:i] + [raw[i]] + raw[i:]
        return raw[:i] + [vary(rng, raw[i])] + raw[i + 1 :]
    return copy.deepcopy(rng.choice(ANY))


def same(a, b):
    if dataclasses.is_dataclass(a):
        return type(a) is type(b) and all(same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    if type(a) is not type(b):
        return type(a) in (int, float) and type(b) in (int, float) and a == b
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def run_case(case, rec):
    rng = random.Random(case["seed"])
    for _ in range(3):
        d = gen_type(rng, rng.choice([0, 1, 2, 2, 3]))
        types = Types()
        t = types.get(d)
        for j in range(6):
            raw = gen_raw(rng, d)
            for _ in range(rng.choice([0, 0, 1, 1, 1, 2]) if j else 0):
                raw = vary(rng, raw)
            convert(rec, types, d, t, raw, rng.random() < 0.6)
    for _ in range(3):
        call_function(rec, rng)
    for _ in range(2):
        override_object(rec, rng)
    instance(rec, rng)
    metadata(rec, rng)


def convert(rec, types, d, t, raw, strict):
    from megatron.energon.typed_converter import raw_to_typed, to_json_object

    orig = copy.deepcopy(raw)
    rec.evaluated(short([d, raw, strict], 2000))
    try:
        want, ok = types.ref(raw, d, strict, rec.ev), True
    except Mismatch:
        want, ok = None, False
    what = f"type {describe(d)}, data {short(raw, 500)}, strict={strict}"
    try:
        got = raw_to_typed(raw, t, strict=strict)
    except ValueError as e:
        if ok:
            rec.violation("rejected", f"{what}: well-typed data rejected: {e}")
        else:
            rec.ev("rejected")
        return
    except Exception as e:
        rec.violation("other_error", f"{what}: {type(e).__name__}: {e} instead of {'a value error' if not ok else short(want)}")
        return
    if not ok:
        rec.violation("accepted", f"{what}: accepted as {got!r}")
        return
    rec.ev("accepted")
    if not same(want, got):
        rec.violation("value", f"{what}: gives {got!r} instead of {want!r}")
        return
    if orig != raw:
        rec.violation("raw_modified", f"{what}: the raw data was modified from {orig!r}")
        return
    try:
        js = to_json_object(got)
        text = json.dumps(js)
        back = raw_to_typed(json.loads(text), t, strict=True) if strict else raw_to_typed(json.loads(text), t)
    except Exception as e:
        # A default outside of the type (None) cannot be read back
        if has_null(d):
            return
        rec.violation("roundtrip", f"{what}: {type(e).__name__} {e} converting {got!r} to raw data and back")
        return
    rec.ev("roundtrip")
    if not same(got, back):
        if has_null(d):
            return
        rec.violation("roundtrip", f"{what}: {got!r} became {back!r} through {text}")


def has_null(d):
    if d["k"] in ("dc", "nt"):
        return any(f.get("null") or has_null(f["t"]) for f in d["f"])
    if d["k"] in ("tuple", "union"):
        return any(map(has_null, d["t"]))
    return "t" in d and has_null(d["t"])


def describe(d):
    k = d["k"]
    if k in ("dc", "nt"):
        return f"{k}({', '.join(f['n'] + ': ' + describe(f['t']) + (' = ' + repr(f['default']) if 'default' in f else '') for f in d['f'])})"
    if k in ("tuple", "union"):
        return f"{k}[{', '.join(map(describe, d['t']))}]"
    if k == "literal":
        return f"literal{d['v']}"
    return k if "t" not in d or d.get("bare") else f"{k}[{describe(d['t'])}]"


# ---- calls -----------------------------------------------------------------------------------------------------------


def call_function(rec, rng):
    from megatron.energon.typed_converter import safe_call_function

    types = Types()
    by_list = rng.random() < 0.45
    names = rng.sample(["a", "b", "c", "d", "e"], rng.randint(0, 4))
    params, fns = [], []
    P = inspect.Parameter
    have_default = False
    for n in names:
        d = gen_type(rng, rng.choice([0, 0, 1])) if rng.random() < 0.8 else None
        have_default = have_default or rng.random() < 0.3
        p = dict(n=n, t=d, kind=P.POSITIONAL_ONLY if by_list and rng.random() < 0.2 else P.POSITIONAL_OR_KEYWORD)
        if have_default:
            p["default"] = object()
        params.append(p)
    params.sort(key=lambda p: p["kind"])
    for p in params:
        p.pop("default", None)
    cut = rng.randint(0, len(params))
    for p in params[cut:]:
        p["default"] = ("default", p["n"])
    var = None
    if by_list and rng.random() < 0.3:
        var = dict(n="args", t=gen_type(rng, 0), kind=P.VAR_POSITIONAL)
    elif not by_list:
        for n in ["k1", "k2"][: rng.choice([0, 0, 1, 2])]:
            p = dict(n=n, t=gen_type(rng, 0), kind=P.KEYWORD_ONLY)
            if rng.random() < 0.5:
                p["default"] = ("default", n)
            params.append(p)
        if rng.random() < 0.3:
            var = dict(n="kw", t=gen_type(rng, 0), kind=P.VAR_KEYWORD)
    allp = params + ([var] if var else [])
    # source code, to have real signatures
    src, ns, state = [], {}, None
    for p in allp:
        if p["kind"] != P.POSITIONAL_ONLY and state == P.POSITIONAL_ONLY:
            src.append("/")
        if p["kind"] == P.KEYWORD_ONLY and state != P.KEYWORD_ONLY:
            src.append("*")
        state = p["kind"]
        s = {P.VAR_POSITIONAL: "*", P.VAR_KEYWORD: "**"}.get(p["kind"], "") + p["n"]
        if p["t"] is not None:
            ns[f"T_{p['n']}"] = types.get(p["t"])
            s += f": T_{p['n']}"
        if "default" in p:
            s += f"=('default', {p['n']!r})"
        src.append(s)
    if state == P.POSITIONAL_ONLY:
        src.append("/")
    cls = rng.random() < 0.4
    body = "dict(" + ", ".join(f"{p['n']}={p['n']}" for p in allp) + ")"
    if cls:
        code = f"class fn:\n    def __init__(self, {', '.join(src)}):\n        self.res = {body}\n"
    else:
        code = f"def fn({', '.join(src)}):\n    return {body}\n"
    exec(code, ns)
    # arguments
    def arg(p):
        raw = gen_raw(rng, p["t"]) if p["t"] is not None else rng.choice(ANY)
        return vary(rng, raw) if rng.random() < 0.08 else raw

    strict = rng.random() < 0.6
    want, ok = {}, True
    typed = lambda raw, p: raw if p["t"] is None else types.ref(raw, p["t"], strict)
    try:
        if by_list:
            raw = [arg(p) for p in params]
            if rng.random() < 0.3:
                raw = raw[: rng.randint(0, len(raw))]
            if len(raw) == len(params) and rng.random() < 0.35:
                raw += [arg(var or dict(t=None)) for _ in range(rng.randint(1, 3))]
            for i, p in enumerate(params):
                if i < len(raw):
                    want[p["n"]] = typed(raw[i], p)
                elif "default" in p:
                    want[p["n"]] = p["default"]
                else:
                    raise Mismatch
            if var:
                want["args"] = tuple(typed(v, var) for v in raw[len(params) :])
            elif len(raw) > len(params) and strict:
                raise Mismatch
        else:
            raw = {p["n"]: arg(p) for p in params if "default" not in p or rng.random() < 0.5}
            if raw and rng.random() < 0.15:
                del raw[rng.choice(list(raw))]
            items = list(raw.items())
            if rng.random() < 0.3:
                items += [(n, arg(var or dict(t=None))) for n in ("z1", "z2")]
            rng.shuffle(items)
            raw = dict(items)
            for p in params:
                if p["n"] in raw:
                    want[p["n"]] = typed(raw[p["n"]], p)
                elif "default" in p:
                    want[p["n"]] = p["default"]
                else:
                    raise Mismatch
            extra = {n: v for n, v in raw.items() if n.startswith("z")}
            if var:
                want["kw"] = {n: typed(v, var) for n, v in extra.items()}
            elif extra and strict:
                raise Mismatch
    except Mismatch:
        ok = False
    what = f"{code.splitlines()[1 if cls else 0].strip()} with {', '.join(p['n'] + ': ' + describe(p['t']) for p in allp if p['t'])} called with {short(raw, 400)}, strict={strict}"
    rec.evaluated(short(what, 2000))
    orig = copy.deepcopy(raw)
    try:
        got = safe_call_function(raw, ns["fn"], strict=strict)
        got = got.res if cls else got
    except ValueError as e:
        if ok:
            rec.violation("call_rejected", f"{what}: {e}")
        else:
            rec.ev("call_rejects")
        return
    except Exception as e:
        rec.violation("call_error", f"{what}: {type(e).__name__}: {e} instead of {'a value error' if not ok else short(want)}")
        return
    if not ok:
        rec.violation("call_accepted", f"{what}: called with {got!r}")
        return
    rec.ev("calls")
    rec.ev("call_list" if by_list else "call_dict")
    if not same(want, got):
        rec.violation("call_binding", f"{what}: called with {got!r} instead of {want!r}")
    elif orig != raw:
        rec.violation("raw_modified", f"{what}: the raw data was modified from {orig!r}")


# ---- override --------------------------------------------------------------------------------------------------------


def override_object(rec, rng):
    from megatron.energon.typed_converter import override

    def obj(depth):
        fs = []
        for n in rng.sample(["a", "b", "c"], rng.randint(1, 3)):
            t = obj(depth - 1) if depth and rng.random() < 0.5 else dict(k=rng.choice(PRIMS))
            fs.append(dict(n=n, t=t))
        return dict(k=rng.choice(["dc", "nt"]), f=fs, post=False)

    types = Types()
    d = obj(2)
    types.get(d)
    raw = gen_raw(rng, d)
    value = types.ref(raw, d, True)
    expect = copy.deepcopy(raw)
    leaves = []

    def walk(d, path):
        leaves.append((path, d))
        if d["k"] in ("dc", "nt"):
            for f in d["f"]:
                walk(f["t"], path + (f["n"],))

    walk(d, ())
    over, ok = {}, True
    for path, t in rng.sample(leaves[1:], rng.randint(1, min(2, len(leaves) - 1))):
        if any(p[: len(path)] == path or path[: len(p)] == p for p in (tuple(k.split(".")) for k in over)):
            continue
        new = gen_raw(rng, t)
        if t["k"] in ("dc", "nt"):
            arg = json.dumps(new)
        elif t["k"] == "str":
            arg = new
        elif rng.random() < 0.2:
            arg, ok = [1], False
        else:
            arg = rng.choice([new, str(new)])
        over[".".join(path)] = arg
        x = expect
        for p in path[:-1]:
            x = x[p]
        x[path[-1]] = new
    strict = rng.random() < 0.7
    if rng.random() < 0.2:
        over["zz"] = 1
        ok = ok and not strict
    what = f"override({value!r}, {over!r}, strict={strict})"
    rec.evaluated(short(what, 1000))
    before = repr(value)
    rec.ev("override")
    try:
        got = override(value, over, strict)
    except ValueError as e:
        if ok:
            rec.violation("override_rejected", f"{what}: {e}")
        return
    except Exception as e:
        rec.violation("override_error", f"{what}: {type(e).__name__}: {e}")
        return
    want = types.ref(expect, d, True)
    if not ok:
        rec.violation("override_accepted", f"{what}: {got!r}")
    elif not same(want, got):
        rec.violation("override_value", f"{what} gives {got!r} instead of {want!r}")
    elif repr(value) != before:
        rec.violation("override_modifies", f"{what} modified the value given")


# ---- instances and metadata ------------------------------------------------------------------------------------------


class Part:
    def __init__(self, x: int, y: Optional[List[str]] = None, z: "Any" = (1, 2)):
        self.x, self.y, self.z = x, y, z


class Whole:
    def __init__(self, part: Part, kind: typing.Type[Part], call: typing.Callable, n: float = 2.5):
        self.part, self.kind, self.call, self.n = part, kind, call, n


def a_function(x):
    return x


def instance(rec, rng):
    from megatron.energon.typed_converter import raw_to_instance

    here = dict(__module__="harness.checks.c18")
    part = dict(x=rng.randint(0, 9))
    if rng.random() < 0.5:
        part["y"] = ["s"]
    raw = dict(
        here, __class__="Whole", part=dict(here, __class__="Part", **part), kind=dict(here, __class__="Part"), call=dict(here, __function__="a_function")
    )
    how = rng.choice(["ok", "ok", "extra", "type", "missing", "inner", "kind"])
    if how == "extra":
        raw["more"] = 1
    elif how == "type":
        raw["n"] = "2.5"
    elif how == "missing":
        del raw["part"]
    elif how == "inner":
        raw["part"]["x"] = "1"
    elif how == "kind":
        raw["kind"] = dict(__module__="collections", __class__="OrderedDict")
    rec.evaluated(("instance", how, str(raw)))
    rec.ev("instances")
    try:
        got = raw_to_instance(raw, Whole, strict=True)
    except ValueError as e:
        if how == "ok":
            rec.violation("instance", f"{raw}: {e}")
        return
    except Exception as e:
        rec.violation("instance", f"{raw}: {type(e).__name__} {e}")
        return
    import sys

    C = sys.modules["harness.checks.c18"]
    if how != "ok":
        rec.violation("instance", f"{raw} ({how}) was accepted")
    elif type(got) is not C.Whole or type(got.part) is not C.Part or got.kind is not C.Part or got.call is not C.a_function or got.n != 2.5:
        rec.violation("instance", f"{raw}: {vars(got)}")
    elif (got.part.x, got.part.y, got.part.z) != (part["x"], part.get("y"), (1, 2)):
        rec.violation("instance", f"{raw}: {vars(got.part)}")


def metadata(rec, rng):
    """The repository's own configuration types."""
    from megatron.energon.flavors.webdataset.structs import WebdatasetInfo, WebdatasetSplits
    from megatron.energon.typed_converter import raw_to_typed, to_json_object

    shards = {f"s{i}.tar": rng.randint(0, 99) for i in range(rng.randint(0, 4))}
    how = rng.choice(["ok", "count", "nolist", "missing", "none"])
    info, splits = dict(shard_counts=dict(shards)), dict(split_parts={"train": list(shards), "val": []}, exclude=["s0.tar"])
    if rng.random() < 0.5:
        del splits["exclude"]
    bad_i = bad_s = False
    if how == "count" and shards:
        info["shard_counts"][rng.choice(list(shards))] = rng.choice(["3", None, 1.5])
        bad_i = True
    elif how == "nolist":
        splits["split_parts"]["val"] = rng.choice(["s0.tar", None, {}])
        bad_s = True
    elif how == "missing":
        del info["shard_counts"], splits["split_parts"]
        bad_i = bad_s = True
    elif how == "none":
        info = splits = None
        bad_i = bad_s = True
    for t, raw, bad in ((WebdatasetInfo, info, bad_i), (WebdatasetSplits, splits, bad_s)):
        rec.evaluated(("metadata", t.__name__, str(raw)))
        rec.ev("metadata")
        try:
            got = raw_to_typed(raw, t)
        except ValueError as e:
            if not bad:
                rec.violation("metadata", f"{t.__name__} {raw}: {e}")
            continue
        except Exception as e:
            rec.violation("metadata", f"{t.__name__} {raw}: {type(e).__name__} {e}")
            continue
        if bad:
            rec.violation("metadata", f"{t.__name__} accepts {raw} as {got}")
        elif to_json_object(got) != dict({"exclude": []} if t is WebdatasetSplits else {}, **raw):
            rec.violation("metadata", f"{t.__name__} {raw} became {got}")
