"""C21: merged transforms equal applying the transforms one after the other."""
import contextlib
import io
import math

import numpy as np

from harness.fp import short

PROPERTY = "C21"
LEVEL = "exploration"
RULE = (
    "Random sequences of 1-5 supported transforms (plus a custom one) with random arguments run merged and one after the "
    "other on the same image with the same seed; taps on the torchvision primitives (crop, pad, resize, flip, rotate, "
    "perspective) record what the sequential run really did, from which the source point of every output pixel follows. The "
    "images carry their own coordinates as pixel values (PIL float and torch float images), so the merged image tells "
    "where each pixel comes from: it must be that point, or the fill colour outside of the source, and the sizes must be the "
    "same. The sequential image itself is compared where it shows content. Sequences of crops, pads and flips only are "
    "compared exactly, on noise. An evaluation is one image; distinct by sequence, arguments, size and kind of image."
)
ASSUMPTIONS = [
    "where the sequential result shows the fill colour because an earlier transform cut the content off, the merged result "
    "may show the original content (one resampling of the original image)",
    "torchvision's own primitives are correct",
]

SCALE = 1000.0


def plan(tier):
    need = {"images": 1500, "pixels_located": 100000, "perspective": 150, "rotate": 250, "expand": 100, "tensor": 300,
            "exact": 200, "fill_pixels": 2000, "sequential_pixels": 50000, "padded_crop": 40, "custom": 50, "both_raise": 5}
    if tier == "quick":
        return dict(n=1600, shards=8, case_timeout=60, budget=150, min_evals=1500, need_events=need)
    return dict(n=40000, shards=8, case_timeout=60, budget=560, min_evals=20000, need_events=need)


# ---- cases -----------------------------------------------------------------------------------------------------------


def gen_op(rng, exact, tensor, lo):
    size = lambda: rng.choice([rng.randint(lo, 64), [rng.randint(lo, 64), rng.randint(lo, 64)]])
    kinds = ["hflip", "vflip", "center", "crop", "crop", "custom"]
    if not exact:
        kinds += ["resize", "resize", "rrc", "rot", "rot", "persp"]
    k = rng.choice(kinds)
    if k in ("hflip", "vflip"):
        return [k, dict(p=rng.choice([0.0, 0.5, 1.0]))]
    if k == "center":
        return [k, dict(size=size())]
    if k == "crop":
        kw = dict(size=size(), pad_if_needed=rng.random() < 0.8)
        if rng.random() < 0.35:
            kw["padding"] = rng.choice([rng.randint(0, 6), [rng.randint(0, 6), rng.randint(0, 6)], [rng.randint(0, 6) for _ in range(4)]])
        return [k, kw]
    if k == "resize":
        kw = dict(size=size())
        if isinstance(kw["size"], int) and rng.random() < 0.4:
            kw["max_size"] = kw["size"] + rng.randint(1, 30)
        elif isinstance(kw["size"], int) and rng.random() < 0.3:
            kw["size"] = [kw["size"]]
        return [k, kw]
    if k == "rrc":
        a, b = sorted([rng.uniform(0.3, 1), rng.uniform(0.3, 1)])
        c, d = sorted([rng.uniform(0.5, 1), rng.uniform(1, 2)])
        return [k, dict(size=size(), scale=[a, b], ratio=[c, d])]
    if k == "rot":
        d = rng.choice([0, 90, 180, 270, -90, 45, 360, rng.uniform(-400, 400)])
        kw = dict(degrees=rng.choice([[d, d], [d, d + rng.randint(0, 60)], rng.randint(0, 180)]))
        kw["expand"] = rng.random() < 0.5
        return [k, kw]
    if k == "persp":
        return [k, dict(distortion_scale=rng.choice([0.1, 0.3, 0.5]), p=rng.choice([0.5, 1.0, 1.0]))]
    return [k, dict(box=[rng.randint(-5, 10), rng.randint(-5, 10), rng.randint(lo, 50), rng.randint(lo, 50)])]


def gen(rng, idx, tier):
    exact = rng.random() < 0.2
    tensor = not exact and rng.random() < 0.35
    lo = 1 if exact else 10
    mode = rng.choice(["L", "RGB", "RGBA"]) if exact else "F"
    return dict(
        ops=[gen_op(rng, exact, tensor, lo) for _ in range(rng.choice([1, 1, 2, 3, 4, 5]))],
        size=[rng.randint(lo, 64), rng.randint(lo, 64)],
        exact=exact,
        tensor=tensor,
        mode=mode,
        # a fill colour applies to the crops' padding (center crops pad with zero)
        # (PIL premultiplies: with alpha the fill colour has to be opaque, or empty)
        fill=rng.choice({"L": [0, 77, 255], "RGB": [0, 77, [1, 2, 3], (7, 100, 255)], "RGBA": [0, 255, (5, 6, 7, 255)], "F": [0]}[mode]),
        interp="bilinear" if tensor else rng.choice(["bilinear", "bilinear", "bicubic"]),
        seed=rng.randrange(1 << 30),
        calls=rng.choice([1, 1, 2]),
    )


# ---- taps ------------------------------------------------------------------------------------------------------------


def T(x, y):
    return np.array([[1, 0, x], [0, 1, y], [0, 0, 1]], dtype=float)


def S(x, y):
    return np.diag([float(x), float(y), 1.0])


class Tap:
    """Records the primitive operations that torchvision applies as one forward matrix (pixel corner coordinates)."""

    NAMES = ["crop", "pad", "resize", "hflip", "vflip", "rotate", "perspective"]

    def __init__(self):
        import torchvision.transforms.functional as F

        self.F = F
        self.depth = 0
        self.matrix = np.eye(3)
        self.log = []
        self.orig = {n: getattr(F, n) for n in self.NAMES}

    def __enter__(self):
        for n in self.NAMES:
            setattr(self.F, n, self.wrap(n))
        return self

    def __exit__(self, *a):
        for n, f in self.orig.items():
            setattr(self.F, n, f)

    def dims(self, img):
        _, h, w = self.F.get_dimensions(img)
        return h, w

    def wrap(self, name):
        orig = self.orig[name]

        def call(img, *args, **kw):
            self.depth += 1
            try:
                out = orig(img, *args, **kw)
            finally:
                self.depth -= 1
            if self.depth == 0:
                m = getattr(self, "_" + name)(self.dims(img), self.dims(out), *args, **kw)
                self.matrix = m @ self.matrix
                self.log.append((name, self.dims(img), self.dims(out), args, {k: v for k, v in kw.items() if k != "interpolation"}))
            return out

        return call

    def _crop(self, i, o, top, left, height, width):
        return T(-left, -top)

    def _pad(self, i, o, padding, fill=0, padding_mode="constant"):
        p = [padding] * 4 if isinstance(padding, int) else list(padding)
        return T(p[0], p[1] if len(p) > 1 else p[0])

    def _resize(self, i, o, *a, **k):
        return S(o[1] / i[1], o[0] / i[0])

    def _hflip(self, i, o):
        return T(o[1], 0) @ S(-1, 1)

    def _vflip(self, i, o):
        return T(0, o[0]) @ S(1, -1)

    def _rotate(self, i, o, angle, interpolation=None, expand=False, center=None, fill=None):
        a = math.radians(angle)
        r = np.array([[math.cos(a), math.sin(a), 0], [-math.sin(a), math.cos(a), 0], [0, 0, 1]])
        return T(o[1] / 2, o[0] / 2) @ r @ T(-i[1] / 2, -i[0] / 2)

    def _perspective(self, i, o, startpoints, endpoints, interpolation=None, fill=None):
        a, b = [], []
        for (x, y), (u, v) in zip(startpoints, endpoints):
            a += [[x, y, 1, 0, 0, 0, -u * x, -u * y], [0, 0, 0, x, y, 1, -v * x, -v * y]]
            b += [u, v]
        h = np.linalg.solve(np.array(a, float), np.array(b, float))
        return np.append(h, 1).reshape(3, 3)


def make(case):
    """The transforms of a case: for merging, and as functions."""
    from torchvision import transforms as V
    from torchvision.transforms import InterpolationMode
    import torchvision.transforms.functional as F

    from megatron.energon.transforms import CustomTransform

    class Window(CustomTransform):
        """Shifts the image to a window of its own fixed size."""

        def __init__(self, box):
            super().__init__(None)
            self.x, self.y, h, w = box
            self.size = np.array([h, w], dtype=np.int64)
            self.box = (self.y, self.x, h, w)

        def apply_transform(self, matrix, dst_size):
            return self.translate(-self.x, -self.y) @ matrix, self.size, ("Window",)

        def __call__(self, img):
            return F.crop(img, *self.box)

    mode = {"bilinear": InterpolationMode.BILINEAR, "bicubic": InterpolationMode.BICUBIC}[case["interp"]]
    if case["exact"]:
        mode = InterpolationMode.NEAREST
    res = []
    for k, kw in case["ops"]:
        kw = {a: tuple(b) if isinstance(b, list) and a != "size" else b for a, b in kw.items()}
        if k == "hflip":
            t = V.RandomHorizontalFlip(**kw)
        elif k == "vflip":
            t = V.RandomVerticalFlip(**kw)
        elif k == "center":
            t = V.CenterCrop(**kw)
        elif k == "crop":
            t = V.RandomCrop(fill=tuple(case["fill"]) if isinstance(case["fill"], (list, tuple)) else case["fill"], **kw)
        elif k == "resize":
            t = V.Resize(interpolation=mode, **kw)
        elif k == "rrc":
            t = V.RandomResizedCrop(interpolation=mode, **kw)
        elif k == "rot":
            t = V.RandomRotation(interpolation=mode, fill=0, **kw)
        elif k == "persp":
            t = V.RandomPerspective(interpolation=mode, fill=0, **kw)
        else:
            t = Window(**kw)
        res.append(t)
    return res


def coords(case):
    """The coordinate image(s): value SCALE + coordinate of the pixel's center; and a constant image."""
    import PIL.Image
    import torch

    h, w = case["size"]
    x = np.broadcast_to(np.arange(w) + 0.5 + SCALE, (h, w)).astype(np.float32)
    y = np.broadcast_to((np.arange(h) + 0.5 + SCALE)[:, None], (h, w)).astype(np.float32)
    c = np.full((h, w), SCALE, dtype=np.float32)
    if case["tensor"]:
        return [torch.as_tensor(np.stack([x, y, c]))]
    return [PIL.Image.fromarray(np.ascontiguousarray(a)) for a in (x, y, c)]


def run(fn, seed, calls):
    import torch

    torch.manual_seed(seed)
    np.random.seed(seed % (1 << 31))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for _ in range(calls):
                out = fn()
        return out, None
    except Exception as e:
        return None, e


def arr(images):
    if len(images) == 1:
        return images[0].numpy()
    return np.stack([np.asarray(i, dtype=np.float32) for i in images])


def run_case(case, rec):
    import PIL.Image

    from megatron.energon.transforms import MergeTransform

    what = f"{case['ops']} on {'tensor' if case['tensor'] else case['mode']} {case['size']} {case['interp']}"
    ops = make(case)
    try:
        merged = MergeTransform(ops)
    except Exception as e:
        rec.evaluated(short(what))
        rec.violation("construct", f"merging supported transforms failed: {type(e).__name__}: {e}" + f"; {what}")
        return
    if case["exact"]:
        rng = np.random.default_rng(case["seed"])
        h, w = case["size"]
        n = {"L": 1, "RGB": 3, "RGBA": 4}[case["mode"]]
        a = rng.integers(1, 255, (h, w, n), dtype=np.uint8)
        if n == 4:
            a[..., 3] = 255
        images = [PIL.Image.fromarray(a[..., 0] if n == 1 else a)]
    else:
        images = coords(case)
    seq_out, got_out, taps = [], [], None
    err_s = err_m = None
    for img in images:

        def sequential():
            nonlocal taps
            with Tap() as taps:
                x = img
                for t in make_cache:
                    x = t(x)
                return x

        make_cache = ops
        o, e = run(sequential, case["seed"], case["calls"])
        seq_out.append(o)
        err_s = err_s or e
        o, e = run(lambda: merged(img), case["seed"], case["calls"])
        got_out.append(o)
        err_m = err_m or e
    rec.evaluated(short(what))
    rec.ev("images")
    if err_s is not None:
        if err_m is None:
            rec.violation("no_error", f"one after the other raises {type(err_s).__name__} but merged returned an image: {err_s}; {what}")
        else:
            rec.ev("both_raise")
        return
    if err_m is not None:
        rec.violation("raises", f"merged raises {type(err_m).__name__}: {err_m} where one after the other works" + f"; {what}")
        return
    rec.ev("tensor" if case["tensor"] else "pil")
    for n, *_ , a, kw in taps.log:
        rec.ev(n)
        if n == "rotate" and (kw.get("expand") or (len(a) > 2 and a[2])):
            rec.ev("expand")
        if n == "pad" and any(k == "crop" and o.get("padding") for k, o in case["ops"]):
            rec.ev("padded_crop")
    if any(k == "custom" for k, _ in case["ops"]):
        rec.ev("custom")
    size_s = [taps.dims(o) for o in seq_out]
    size_m = [taps.dims(o) for o in got_out]
    right = [e for e in taps.log if e[0] == "rotate" and (len(e[3]) > 2 and e[3][2]) and e[3][0] % 180 == 90 and sum(e[1]) % 2]
    if size_s != size_m and right and not case["tensor"]:
        rec.violation("right_angle_expand", f"merged gives {size_m[0]}, one after the other {size_s[0]} (h, w); {what}; {taps.log}")
        return
    if right and not case["tensor"]:
        return  # half a pixel off, even if cropped later
    if size_s != size_m:
        rec.violation("size", f"merged gives {size_m[0]}, one after the other {size_s[0]} (h, w)" + f"; {what}; {taps.log}")
        return
    h, w = size_s[0]
    inv = np.linalg.inv(taps.matrix)
    gx, gy = np.meshgrid(np.arange(w) + 0.5, np.arange(h) + 0.5)
    p = inv @ np.stack([gx.ravel(), gy.ravel(), np.ones(h * w)])
    behind = p[2] * np.sign(inv[2, 2]) <= 1e-9
    px, py = (p[:2] / np.where(p[2] == 0, 1e-9, p[2])).reshape(2, h, w)
    H, W = case["size"]
    if case["exact"]:
        check_exact(case, rec, seq_out[0], got_out[0], px, py, what, taps)
        return
    s, m = arr(seq_out), arr(got_out)
    margin = 1.0 + 1e-3 if case["interp"] == "bilinear" else 2.0 + 1e-3
    # behind the horizon of a perspective: no meaning
    ok = ~behind.reshape(h, w)
    inside = ok & (px > margin) & (px < W - margin) & (py > margin) & (py < H - margin)
    outside = ok & ((px < -margin) | (px > W + margin) | (py < -margin) | (py > H + margin))
    dx, dy = np.abs(m[0] - SCALE - px), np.abs(m[1] - SCALE - py)
    # float32 homographies and grids: a few hundredths of a pixel
    # (PIL's bicubic kernel does not reproduce linear functions exactly)
    tol = 0.06 if case["interp"] == "bilinear" else 0.3
    bad = inside & ((dx > tol) | (dy > tol) | (np.abs(m[2] - SCALE) > 1))
    rec.ev("pixels_located", int(inside.sum()))
    if bad.any():
        y, x = map(int, np.argwhere(bad)[0])
        rec.violation(
            "geometry",
            f"{int(bad.sum())} of {int(inside.sum())} pixels show another source point: output pixel ({x}, {y}) shows "
            f"({m[0, y, x] - SCALE:.3f}, {m[1, y, x] - SCALE:.3f}) instead of ({px[y, x]:.3f}, {py[y, x]:.3f}); {what}; {taps.log}",
        )
        return
    rec.ev("fill_pixels", int(outside.sum()))
    bad = outside & (np.abs(m).max(0) > 1e-3)
    if bad.any():
        y, x = map(int, np.argwhere(bad)[0])
        rec.violation("fill", f"output pixel ({x}, {y}) from outside of the image is not the fill colour: {m[:, y, x].tolist()}" + f"; {what}; {taps.log}")
        return
    # The sequential image where it shows content: also validates the reference above.
    content = inside & (np.abs(s[2] - SCALE) < 0.5)
    k = 3
    er = content.copy()
    for d in range(-k, k + 1):
        for ax in (0, 1):
            sh = np.zeros_like(er)
            src = content
            if d >= 0:
                (sh[d:, :] if ax == 0 else sh[:, d:])[...] = src[: h - d, :] if ax == 0 else src[:, : w - d]
            else:
                (sh[:d, :] if ax == 0 else sh[:, :d])[...] = src[-d:, :] if ax == 0 else src[:, -d:]
            er &= sh
    if er.any():
        rec.ev("sequential_pixels", int(er.sum()))
        d = np.median(np.maximum(np.abs(m[0] - s[0]), np.abs(m[1] - s[1]))[er])
        if d > 0.5:
            rec.violation("content", f"merged and sequential image differ by {d:.2f} pixels (median)" + f"; {what}; {taps.log}")


def check_exact(case, rec, seq, got, px, py, what, taps):
    rec.ev("exact")
    if seq.mode != got.mode:
        rec.violation("mode", f"image mode {got.mode} instead of {seq.mode}" + f"; {what}")
        return
    s, m = np.asarray(seq), np.asarray(got)
    H, W = case["size"]
    inside = (px > 0) & (px < W) & (py > 0) & (py < H)
    # content cut off by an earlier crop may show up; everything which the sequential image shows must be there
    s3, m3 = (a.reshape(*a.shape[:2], -1) for a in (s, m))
    n = s3.shape[2]
    rng = np.random.default_rng(case["seed"])
    a = rng.integers(1, 255, (H, W, n), dtype=np.uint8)
    if n == 4:
        a[..., 3] = 255
    rec.ev("pixels_exact", int(inside.sum()))
    iy, ix = np.floor(py[inside]).astype(int), np.floor(px[inside]).astype(int)
    if not (m3[inside] == a[iy, ix]).all():
        rec.violation("exact", "crops, pads and flips: pixels of the source at wrong places" + f"; {what}; {taps.log}")
        return
    centers = any(k in ("center", "custom") for k, _ in case["ops"])
    if not centers:
        fill = np.broadcast_to(case["fill"], (n,))
        if not (m3[~inside] == fill).all():
            rec.violation("exact_fill", f"padding is not the fill colour {case['fill']}" + f"; {what}; {taps.log}")
            return
        rec.ev("fill_pixels", int((~inside).sum()))
    same = (s3 == m3).all(2)
    cut = (s3 == case["fill"]).all(2) | (s3[..., :3] == 0).all(2)
    if (inside & ~same & ~cut).any():
        rec.violation("exact", "merged differs from the sequential image" + f"; {what}; {taps.log}")
