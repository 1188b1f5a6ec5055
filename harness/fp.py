"""Fingerprints: nested tuples of everything observable in a sample / batch / state."""
import dataclasses
import hashlib

import numpy as np
import torch


def fp(x, keys=True):
    if x is None or isinstance(x, (int, float, bool, str)):
        return x
    if isinstance(x, (bytes, bytearray)):
        return ("bytes", bytes(x) if len(x) <= 64 else (len(x), hashlib.sha1(bytes(x)).hexdigest()))
    if isinstance(x, torch.Tensor):
        t = x.detach().cpu().contiguous()
        return ("tensor", tuple(t.shape), str(t.dtype), fp(t.reshape(-1).view(torch.uint8).numpy().tobytes() if t.numel() else b""))
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, str(x.dtype), fp(x.tobytes()))
    if isinstance(x, np.generic):
        return ("npg", str(x.dtype), x.item())
    if isinstance(x, dict):
        return ("dict", tuple((k, fp(v, keys)) for k, v in x.items() if keys or k != "__restore_key__"))
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (type(x).__name__,) + tuple(
            (f.name, fp(getattr(x, f.name), keys))
            for f in dataclasses.fields(x)
            if keys or f.name != "__restore_key__"
        )
    if isinstance(x, tuple):
        return tuple(fp(v, keys) for v in x)
    if isinstance(x, (list, set)):
        return (type(x).__name__,) + tuple(fp(v, keys) for v in x)
    return ("repr", repr(x))


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2 :]


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    if len(a) != len(b):
        return min(len(a), len(b))
    return None


def diff_path(a, b, path=""):
    """Path of the first difference of two fingerprints."""
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                name = a[0] if i and isinstance(a[0], str) else ""
                return diff_path(x, y, f"{path}/{name}[{i}]")
    return f"{path}: {short(a, 200)} -> {short(b, 200)}"
