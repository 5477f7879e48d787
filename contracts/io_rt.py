"""A09-A15, A31: files and containers, by run-time contract checking on real files in a scratch folder (bounded)."""
import os
from vc.spec import *

POST = "algotom.post.postprocessing"
LOSA = "algotom.io.loadersaver"
CONV = "algotom.io.converter"
KINDS = ["array", "hdf", "tif"]


def np_():
    import numpy
    return numpy


def crop6(E, d, h, w, on):
    if not on:
        return (0,) * 6
    c = []
    for k, n in (("d", d), ("h", h), ("w", w)):
        a = E.int("crop_%s0" % k, 0, min(3, n - 1))
        b = E.int("crop_%s1" % k, 0, min(3, n - 1 - a))
        c += [a, b]
    return tuple(c)


def close(np, a, b, tol=1e-5):
    return a.shape == b.shape and np.allclose(np.asarray(a, dtype="float64"), np.asarray(b, dtype="float64"), rtol=tol, atol=tol)


def kept_images(E, path):
    """How the folder of an output looked like: images in the order of their names."""
    return None


def output(E, kind, kw):
    """Where the result goes; sometimes over a hdf file that exists."""
    dst = E.output("result", kind)
    if kind == "hdf" and E.int("exists", 0, 2) == 0:
        from vc import rt_io
        rt_io.write_hdf(dst, "entry/data", np_().zeros((2, 3, 4)))
        kw["overwrite"] = True
    return dst


# ------------------------------------------------------------------------------------------------ A09
@contract("A09", POST, "downsample_dataset", dict(src=KINDS, out=KINDS, method=["mean", "min", "max", "median"]), bounded=True,
          samples=12, rt_budget=3, frame=True)
def downsample_dataset(E, src, out, method):
    np = np_()
    d, h, w = E.size("d", 1, 9), E.size("h", 1, 9), E.size("w", 1, 9)
    inp, vol = E.dataset("data", (d, h, w), src)
    c = crop6(E, d, h, w, E.bool("cropped"))
    D, H, W = d - c[0] - c[1], h - c[2] - c[3], w - c[4] - c[5]
    cell = (E.int("cell0", 1, min(3, D)), E.int("cell1", 1, min(3, H)), E.int("cell2", 1, min(3, W)))
    arg = cell
    if len(set(cell)) == 1 and E.bool("cell_as_number"):
        arg = cell[0]
    kw = dict(crop=c) if any(c) else {}
    if src == "hdf":
        kw["key_path"] = "entry/data"
    dst = output(E, out, kw)
    r = E.call(inp, dst, arg, method=method, **kw)
    got = E.output_of(r, dst, out)
    n = (D // cell[0], H // cell[1], W // cell[2])
    E.ensure("shape", tuple(got.shape) == n)
    f = {"mean": np.mean, "min": np.min, "max": np.max, "median": np.median}[method]
    ref = np.zeros(n)
    cr = vol[c[0]:d - c[1], c[2]:h - c[3], c[4]:w - c[5]].astype("float64")
    for i in range(n[0]):
        for j in range(n[1]):
            for k in range(n[2]):
                b = cr[i * cell[0]:(i + 1) * cell[0], j * cell[1]:(j + 1) * cell[1], k * cell[2]:(k + 1) * cell[2]]
                ref[i, j, k] = f(b) if method != "median" else np.median(np.median(np.median(b, axis=2), axis=0), axis=0)
    E.ensure("value", close(np, got, ref, 1e-4))


# ------------------------------------------------------------------------------------------------ A10
@contract("A10", POST, "rescale_dataset", dict(src=KINDS, out=KINDS, nbit=[8, 16], dt=["float32", "uint16", "uint8"]), bounded=True,
          samples=8, rt_budget=2, frame=True)
def rescale_dataset(E, src, out, nbit, dt):
    np = np_()
    d, h, w = E.size("d", 1, 7), E.size("h", 1, 7), E.size("w", 1, 7)
    inp, vol = E.dataset("data", (d, h, w), src, dtype=dt)
    c = crop6(E, d, h, w, E.bool("cropped"))
    kw = dict(crop=c) if any(c) else {}
    if src == "hdf":
        kw["key_path"] = "entry/data"
    cr = vol[c[0]:d - c[1], c[2]:h - c[3], c[4]:w - c[5]].astype("float64")
    given = E.bool("given")
    if given:
        lo = E.int("lo", -3, 100)
        hi = lo + E.int("range", 1, 90)
        kw["minmax"] = (lo, hi)
    else:
        kw["skip"] = 1
        lo, hi = float(cr.min()), float(cr.max())
        E.require(lo < hi)
    dst = output(E, out, kw)
    r = E.call(inp, dst, nbit=nbit, **kw)
    got = E.output_of(r, dst, out)
    M = 255 if nbit == 8 else 65535
    E.ensure("dtype", str(got.dtype) == "uint%d" % nbit)
    ref = np.trunc((np.clip(cr, lo, hi) - lo) / (hi - lo) * M)
    E.ensure("shape", got.shape == ref.shape)
    E.ensure("value", bool(np.all(np.abs(got.astype("float64") - ref) <= 1)))
    E.ensure("ends", bool(np.all(got[cr <= lo] == 0)) and bool(np.all(got[cr >= hi] >= M - 1)))


@contract("A10", POST, "rescale_dataset", dict(src=KINDS, out=KINDS, nbit=[8, 16]), bounded=True, samples=8, rt_budget=2,
          name="postprocessing.rescale_dataset(common limits)")
def rescale_common(E, src, out, nbit):
    """Each slice of the result is the slice rescaled with the limits of the statistics over the sampled slices."""
    np = np_()
    d, h, w = E.size("d", 1, 9), E.size("h", 1, 6), E.size("w", 1, 6)
    inp, vol = E.dataset("data", (d, h, w), src)
    c = crop6(E, d, h, w, E.bool("cropped"))
    kw = dict(crop=c)
    if src == "hdf":
        kw["key_path"] = "entry/data"
    sk = E.int("skip", 0, 4)
    D = d - c[0] - c[1]
    if sk:
        kw["skip"] = sk
    else:
        sk = int(max(1, np.ceil(0.15 * D)))
    cr = vol[c[0]:d - c[1], c[2]:h - c[3], c[4]:w - c[5]]
    s = cr[::max(1, min(sk, D - 1))]
    lo, hi = float(s.min()), float(s.max())
    E.require(lo < hi)
    dst = output(E, out, kw)
    r = E.call(inp, dst, nbit=nbit, **kw)
    got = E.output_of(r, dst, out)
    M = 255 if nbit == 8 else 65535
    ref = np.trunc((np.clip(cr.astype("float64"), lo, hi) - lo) / (hi - lo) * M)
    E.ensure("shape", got.shape == ref.shape)
    E.ensure("value", bool(np.all(np.abs(got.astype("float64") - ref) <= 1)))


# ------------------------------------------------------------------------------------------------ A11
@contract("A11", POST, "reslice_dataset", dict(src=["hdf", "tif"], out=["hdf", "tif"], axis=[1, 2]), bounded=True, samples=40, rt_budget=9)
def reslice_dataset(E, src, out, axis):
    np = np_()
    d, h, w = E.size("d", 1, 8), E.size("h", 1, 8), E.size("w", 1, 8)
    inp, vol = E.dataset("data", (d, h, w), src, dtype=["float32", "uint16"][E.int("type", 0, 1)])
    c = crop6(E, d, h, w, E.bool("cropped"))
    kw = dict(crop=c) if any(c) else {}
    if src == "hdf":
        kw["key_path"] = "entry/data"
    kw["chunk"] = E.int("chunk", 1, 10)
    if E.bool("one_core"):
        kw["ncore"] = 1
    b = E.scratch()
    dst = E.output("out", out)
    keep = E.int("keep", 0, 3)
    if keep == 1:
        os.makedirs(b.path("out_"))
    elif keep == 2 and out == "hdf":
        os.makedirs(b.path("out"))
        open(b.path("out", "note.txt"), "w").write("precious")
    elif keep == 3:
        os.makedirs(b.path("tmp_"))
        open(b.path("tmp_", "note.txt"), "w").write("precious")
    cr = vol[c[0]:d - c[1], c[2]:h - c[3], c[4]:w - c[5]]
    ref = np.moveaxis(cr, 1, 0) if axis == 1 else np.moveaxis(cr, 2, 0)
    resc = E.int("rescaling", 0, 2)
    if resc:
        lo = E.int("lo", 0, 3)
        hi = lo + E.int("range", 1, 90)
        kw.update(rescaling=True, nbit=8 * resc, minmax=(lo, hi))
        M = 255 if resc == 1 else 65535
        if vol.dtype == np.uint16:
            lo, hi = 0, 65535
        if vol.dtype != np.uint16 or resc == 1:
            ref = np.trunc((np.clip(ref.astype("float64"), lo, hi) - lo) / (hi - lo) * M)
    before = b.tree()
    E.call(inp, dst, axis=axis, show_progress=False, **kw)
    got = E.output_of(None, dst, out)
    E.ensure("shape", got.shape == ref.shape)
    if resc:
        E.ensure("dtype", str(got.dtype) == "uint%d" % (8 * resc))
    E.ensure("value", bool(np.all(np.abs(got.astype("float64") - ref) <= (1 if resc else 1e-6))))
    after = b.tree()
    new = ("out.hdf",) if out == "hdf" else ("out/",)
    E.ensure("nothing_lost", all(k in after and after[k] == v for k, v in before.items()))
    E.ensure("nothing_left", all(k in before or k in new or (out == "tif" and k.startswith("out/img_") and k.endswith(".tif"))
                                 for k in after), str([k for k in after if k not in before])[:300])


@contract("A11", POST, "reslice_dataset", dict(src=["hdf", "tif"], axis=[1, 2]), bounded=True, samples=8, rt_budget=3,
          name="postprocessing.reslice_dataset(refusals)")
def reslice_refuses(E, src, axis):
    """An output that exists is not touched unless overwriting is asked for."""
    d, h, w = E.size("d", 1, 4), E.size("h", 1, 4), E.size("w", 1, 4)
    inp, vol = E.dataset("data", (d, h, w), src)
    b = E.scratch()
    out = ["hdf", "tif"][E.int("out", 0, 1)]
    dst = E.output("out", out)
    if out == "hdf":
        open(dst, "w").write("x")
    else:
        os.makedirs(dst)
        open(dst + "/x.txt", "w").write("x")
    before = b.tree()
    f = E.fn()
    try:
        f(inp, dst, axis=axis, key_path="entry/data", show_progress=False)
        E.ensure("refused", False)
    except ValueError:
        pass
    E.ensure("untouched", b.tree() == before)


@contract("A11", POST, "reslice_dataset", dict(src=["hdf", "tif"], out=["hdf", "tif"], axis=[1, 2]), bounded=True, samples=6, rt_budget=4,
          name="postprocessing.reslice_dataset(rotated)")
def reslice_rotated(E, src, out, axis):
    """Rotating each image first, then cropping and reslicing."""
    np = np_()
    import scipy.ndimage as ndi
    d, h, w = E.size("d", 1, 6), E.size("h", 2, 8), E.size("w", 2, 8)
    inp, vol = E.dataset("data", (d, h, w), src)
    c = crop6(E, d, h, w, E.bool("cropped"))
    ang = E.real("rotate", -20, 20)
    kw = dict(crop=c, chunk=E.int("chunk", 1, 7), rotate=ang, mode="nearest", show_progress=False)
    if src == "hdf":
        kw["key_path"] = "entry/data"
    dst = E.output("out", out)
    E.call(inp, dst, axis=axis, **kw)
    got = E.output_of(None, dst, out)
    rot = np.asarray([ndi.rotate(m, ang, mode="nearest", reshape=False, order=1) if ang != 0.0 else m for m in vol])
    cr = rot[c[0]:d - c[1], c[2]:h - c[3], c[4]:w - c[5]]
    ref = np.moveaxis(cr, 1, 0) if axis == 1 else np.moveaxis(cr, 2, 0)
    E.ensure("value", close(np, got, ref))


# ------------------------------------------------------------------------------------------------ A12
@contract("A12", POST, "get_statistical_information_dataset", dict(src=KINDS, den=[False, True]), bounded=True, samples=15, rt_budget=4,
          name="postprocessing.get_statistical_information_dataset(containers)")
def statistics_containers(E, src, den):
    np = np_()
    from scipy.ndimage import gaussian_filter
    d, h, w = E.size("d", 1, 8), E.size("h", 1, 7), E.size("w", 1, 7)
    inp, vol = E.dataset("data", (d, h, w), src)
    c = crop6(E, d, h, w, E.bool("cropped"))
    sk = E.int("skip", 1, 5)
    p = (E.int("p0", 0, 100), E.int("p1", 0, 100))
    kw = dict(crop=c, percentile=p, skip=sk, denoise=den)
    if src == "hdf":
        kw["key_path"] = "entry/data"
    r = E.call(inp, **kw)
    D = d - c[0] - c[1]
    s = vol[c[0]:d - c[1], c[2]:h - c[3], c[4]:w - c[5]][::max(1, min(sk, D - 1))]
    if den:
        s = [gaussian_filter(m, 2) for m in s]
    s = [m.astype("float64") for m in s]
    ref = [min(m.min() for m in s), max(m.max() for m in s), min(np.percentile(m, p[0]) for m in s), max(np.percentile(m, p[1]) for m in s),
           np.mean([m.mean() for m in s]), np.median([np.median(m) for m in s]), np.mean([m.var() for m in s])]
    for n, a, b in zip(("min", "max", "low", "high", "mean", "median", "variance"), r, ref):
        E.ensure(n, abs(float(a) - b) <= 1e-4 * (1 + abs(b)))


# ------------------------------------------------------------------------------------------------ A13
def crop4(E, h, w):
    t = E.int("top", 0, min(3, h - 1))
    l = E.int("left", 0, min(3, w - 1))
    return t, E.int("bottom", 0, min(3, h - 1 - t)), l, E.int("right", 0, min(3, w - 1 - l))


def corrected(np, img, flat, dark, zero):
    """img - dark, divided by flat - dark where a flat is given."""
    img = img.astype("float64")
    d = dark if dark is not None else np.zeros(img.shape)
    if flat is None:
        return img - d
    fd = flat.astype("float64") - d
    fd[fd == 0] = fd.mean()
    return (img - d) / fd


def field(E, np, name, h, w):
    """A flat/dark field: none, an image or a stack; and the image it stands for."""
    k = E.int(name + "_kind", 0, 3)
    if k == 0:
        return None, None
    if k < 3:
        f = E.array(name, (h, w), lo=1.0 if name == "flat" else 0.0, hi=3.0 if name == "flat" else 0.9)
        return f, f.astype("float64")
    f = E.array(name, (E.size(name + "_n", 1, 4), h, w), lo=1.0 if name == "flat" else 0.0, hi=3.0 if name == "flat" else 0.9)
    return f, f.mean(axis=0, dtype="float64")


def no_zero(np, x, on):
    x = x.copy()
    if on:
        m = x.mean()
        x[x == 0] = m
    return x


@contract("A13", LOSA, "get_tif_stack", {}, bounded=True, samples=80, rt_budget=6, frame=True)
def get_tif_stack(E):
    np = np_()
    n, h, w = E.size("n", 1, 6), E.size("h", 1, 7), E.size("w", 1, 7)
    p, vol = E.dataset("data", (n, h, w), "tif")
    t, b, l, r = crop4(E, h, w)
    flat, F = field(E, np, "flat", h, w)
    dark, Dk = field(E, np, "dark", h, w)
    sl = (slice(t, h - b), slice(l, w - r))
    kw = dict(crop=(t, b, l, r), flat_field=flat, dark_field=dark, fix_zero_div=E.bool("fix_zero"))
    if E.bool("one"):
        i = E.int("idx", -9, 9)
        kw["idx"] = i
        if not -n <= i < n:
            E.call(p, _raises={"ValueError": True}, **kw)
            return
        ref = vol[i:i + 1] if i >= 0 else vol[n + i:n + i + 1]
    else:
        u = E.int("num_use", 0, 8)
        if u:
            kw["num_use"] = u
        ref = vol[:min(u, n)] if u else vol
    f = "get_image_stack" if E.bool("outer") else "get_tif_stack"
    if f == "get_tif_stack":
        got = E.call(p, **kw)
    else:
        got = E.run(E.fn(f), kw.pop("idx", None), p, **kw)
    ref = np.asarray([corrected(np, m[sl], None if F is None else F[sl], None if Dk is None else Dk[sl], 0) for m in ref])
    E.ensure("value", close(np, got, no_zero(np, ref, kw["fix_zero_div"]), 1e-4))


@contract("A13", LOSA, "get_image_stack", dict(src=["hdf", "tif"]), bounded=True, samples=60, rt_budget=6, frame=True)
def get_image_stack(E, src):
    np = np_()
    k, n, h, w = E.size("k", 1, 4), E.size("n", 1, 5), E.size("h", 1, 7), E.size("w", 1, 7)
    ps = [E.dataset("data%d" % i, (n, h, w), src) for i in range(k)]
    t, b, l, r = crop4(E, h, w)
    sl = (slice(t, h - b), slice(l, w - r))
    flat, F = field(E, np, "flat", h, w)
    dark, Dk = field(E, np, "dark", h, w)
    kw = dict(crop=(t, b, l, r), flat_field=flat, dark_field=dark, fix_zero_div=E.bool("fix_zero"), average=E.bool("average"))
    u = E.int("num_use", 0, 5)
    if u:
        kw["num_use"] = u
    if src == "hdf":
        kw["data_key"] = "entry/data"
    i = E.int("idx", -n, n - 1)
    got = E.call(i, [p for p, _ in ps], **kw)
    use = [v for _, v in ps][:min(u, k) if u else k]
    ref = np.asarray([corrected(np, (v.mean(axis=0, dtype="float64") if kw["average"] else v[i])[sl], None if F is None else F[sl],
                                None if Dk is None else Dk[sl], 0) for v in use])
    E.ensure("value", close(np, got, no_zero(np, ref, kw["fix_zero_div"]), 1e-4))


@contract("A13", LOSA, "get_reference_sample_stacks", {}, bounded=True, samples=60, rt_budget=6, frame=True)
def get_reference_sample_stacks(E):
    np = np_()
    k, n, h, w = E.size("k", 1, 4), E.size("n", 1, 5), E.size("h", 1, 7), E.size("w", 1, 7)
    m = E.size("nref", 1, 4)
    flatref = E.bool("ref_2d")
    sams = [E.dataset("sam%d" % i, (n, h, w), "hdf") for i in range(k)]
    refs = [E.dataset("ref%d" % i, (h, w) if flatref else (m, h, w), "hdf") for i in range(k)]
    t, b, l, r = crop4(E, h, w)
    sl = (slice(t, h - b), slice(l, w - r))
    flat, F = field(E, np, "flat", h, w)
    dark, Dk = field(E, np, "dark", h, w)
    kw = dict(crop=(t, b, l, r), flat_field=flat, dark_field=dark, fix_zero_div=E.bool("fix_zero"))
    u = E.int("num_use", 0, 5)
    if u:
        kw["num_use"] = u
    i = E.int("idx", 0, n - 1)
    got = E.call(i, [p for p, _ in refs], [p for p, _ in sams], "entry/data", "entry/data", **kw)
    q = min(u, k) if u else k
    FF, DD = (None if F is None else F[sl]), (None if Dk is None else Dk[sl])
    rr = np.asarray([corrected(np, (v if flatref else v.mean(axis=0, dtype="float64"))[sl], FF, DD, 0) for _, v in refs[:q]])
    ss = np.asarray([corrected(np, v[i][sl], FF, DD, 0) for _, v in sams[:q]])
    E.ensure("reference", close(np, got[0], no_zero(np, rr, kw["fix_zero_div"]), 1e-4))
    E.ensure("sample", close(np, got[1], no_zero(np, ss, kw["fix_zero_div"]), 1e-4))


@contract("A13", LOSA, "get_reference_sample_stacks_dls", dict(keys=["file", "given", "none"]), bounded=True, samples=60, rt_budget=6, frame=True)
def get_reference_sample_stacks_dls(E, keys):
    np = np_()
    from vc import rt_io
    k, n, h, w = E.size("k", 1, 3), E.size("n", 1, 9), E.size("h", 1, 6), E.size("w", 1, 6)
    b = E.scratch()
    sams = [E.dataset("sam%d" % i, (n, h, w), "hdf", key="entry/data/data", lo=1, hi=6) for i in range(k)]
    kinds = np.array([E.int("key%d" % j, 0, 2) for j in range(n)])
    E.require(0 in kinds)
    kw = {}
    if keys == "file":
        for i in range(k):
            rt_io.write_hdf(b.path("sam%d.hdf" % i), "entry/instrument/image_key", kinds)
    elif keys == "given":
        kw["image_key"] = [kinds.tolist(), tuple(kinds.tolist()), kinds][E.int("how", 0, 2)]
    if keys == "none":
        kinds = np.zeros(n, dtype=int)
    if E.bool("give_data_key"):
        kw["data_key"] = "entry/data/data"
    t, bt, l, r = crop4(E, h, w)
    sl = (slice(t, h - bt), slice(l, w - r))
    fk = E.int("fields", 0, 3)
    F = E.array("flat", (h, w), lo=20, hi=30) if fk & 1 else None
    Dk = E.array("dark", (h, w), lo=0, hi=0.9) if fk & 2 else None
    kw.update(crop=(t, bt, l, r), flat_field=F, dark_field=Dk, fix_zero_div=E.bool("fix_zero"))
    u = E.int("num_use", 0, 4)
    if u:
        kw["num_use"] = u
    q = min(u, k) if u else k
    sam = np.flatnonzero(kinds == 0)
    i = E.int("idx", -2, n)
    if i < 0 or i >= len(sam):
        E.call(i, [p for p, _ in sams], _raises={"ValueError": True}, **kw)
        return
    first, last = sam[0], sam[-1]
    got = E.call(i, [p for p, _ in sams], **kw)
    rr, ss = [], []
    for _, v in sams[:q]:
        dk = Dk[sl].astype("float64") if Dk is not None else v[kinds == 2].mean(axis=0, dtype="float64")[sl] if 2 in kinds else np.zeros((h, w))[sl]
        f = None if F is None else F[sl]
        if 1 in kinds:
            rr.append(corrected(np, v[kinds == 1].mean(axis=0, dtype="float64")[sl], f, dk, 0))
        ss.append(corrected(np, v[sam[i]][sl], f, dk, 0))
    if rr:
        E.ensure("reference", close(np, got[0], no_zero(np, np.asarray(rr), kw["fix_zero_div"]), 1e-4))
        got = got[1]
    E.ensure("sample", close(np, got, no_zero(np, np.asarray(ss), kw["fix_zero_div"]), 1e-4))


@contract("A13", CONV, "convert_tif_to_hdf", {}, bounded=True, samples=40, rt_budget=6)
def convert_tif_to_hdf(E):
    np = np_()
    from vc import rt_io
    n, h, w = E.size("n", 1, 6), E.size("h", 1, 7), E.size("w", 1, 7)
    p, vol = E.dataset("data", (n, h, w), "tif", ext=[".tif", ".tiff"][E.int("ext", 0, 1)])
    t, b, l, r = crop4(E, h, w)
    kw = {}
    if E.bool("pattern"):
        kw["pattern"] = "f_"
        rt_io.write_tif(os.path.join(p, "a_00001.tif"), np.full((h, w), 99, dtype="float32"))
    bx = E.scratch()
    dst = bx.path("res", "x") + ["", ".hdf", ".h5", ".nxs"][E.int("suffix", 0, 3)]
    key = ["entry/data", "raw/d"][E.int("key", 0, 1)]
    before = bx.tree()
    out = E.call(p, dst, key_path=key, crop=(t, b, l, r), **kw)
    import gc
    gc.collect()
    E.ensure("value", close(np, rt_io.read_hdf(str(out), key), vol[:, t:h - b, l:w - r]))
    after = bx.tree()
    E.ensure("input_kept", all(after.get(x) == v for x, v in before.items()))


@contract("A13", CONV, "extract_tif_from_hdf", dict(axis=[0, 1, 2]), bounded=True, samples=40, rt_budget=6)
def extract_tif_from_hdf(E, axis):
    np = np_()
    from vc import rt_io
    n, h, w = E.size("n", 1, 7), E.size("h", 1, 7), E.size("w", 1, 7)
    p, vol = E.dataset("data", (n, h, w), "hdf")
    v = np.moveaxis(vol, axis, 0)
    N, a, c = v.shape
    t, b, l, r = crop4(E, a, c)
    bx = E.scratch()
    dst = bx.path("res")
    kw = dict(axis=axis, crop=(t, b, l, r))
    mode = E.int("mode", 0, 2)
    if mode == 0:
        idx = range(N)
    elif mode == 1:
        i = E.int("index", -9, 9)
        kw["index"] = i
        idx = [min(max(i + N if i < 0 else i, 0), N - 1)]
    else:
        st, sp, step = E.int("start", 0, N - 1), E.int("stop", -1, N + 2), E.int("step", 1, 3)
        E.require(sp != 0, sp > st or sp == -1)
        kw["index"] = (st, sp, step)
        idx = range(st, N if sp == -1 or sp > N else sp, step)
    E.call(p, dst, "entry/data", **kw)
    got, names = rt_io.read_folder(dst)
    E.ensure("names", names == ["img_%05d.tif" % i for i in idx], str(names)[:200])
    E.ensure("value", close(np, got, np.asarray([v[i][t:a - b, l:c - r] for i in idx])))


@contract("A13", LOSA, "load_image_multiple", {}, bounded=True, samples=30, rt_budget=4)
def load_image_multiple(E):
    np = np_()
    n, h, w = E.size("n", 1, 6), E.size("h", 1, 5), E.size("w", 1, 5)
    p, vol = E.dataset("data", (n, h, w), "tif", dtype=["float32", "uint16", "uint8"][E.int("type", 0, 2)])
    fs = E.run(E.fn("find_file"), p + "/*.tif*")
    E.ensure("files_in_order", [os.path.basename(f) for f in fs] == sorted(os.listdir(p)))
    rev = E.bool("reversed")
    got = E.call(fs[::-1] if rev else fs, ncore=[None, 1, 2][E.int("ncore", 0, 2)])
    E.ensure("value", close(np, got, vol[::-1] if rev else vol))


# ------------------------------------------------------------------------------------------------ A14
def index_of(E, tag, n, steps=True):
    k = E.int(tag + "_kind", 0, 3)
    if k == 0:
        return E.int(tag, -n, n - 1)
    if k == 1:
        return slice(None)
    g = lambda s: (None if E.int(tag + s + "_none", 0, 3) == 0 else E.int(tag + s, -n - 2, n + 2))
    a, b = g("a"), g("b")
    c = E.int(tag + "c", -3, 3) if steps else 0
    return slice(a, b, c if c else None)


@contract("A14", CONV, "HdfEmulatorFromTif", dict(form=["int", "slice", "three"], dt=["float32", "uint16"]), bounded=True, samples=150, rt_budget=8)
def hdf_emulator(E, form, dt):
    np = np_()
    n, h, w = E.size("n", 1, 6), E.size("h", 1, 5), E.size("w", 1, 5)
    p, vol = E.dataset("data", (n, h, w), "tif", dtype=dt)
    o = E.call(p, ncore=1 + E.int("more_cores", 0, 1) * (E.int("rare", 0, 9) == 0))
    E.ensure("shape", tuple(o.shape) == (n, h, w))
    E.ensure("length", len(o) == n)
    E.ensure("dtype", o.dtype == np.float32)
    if form == "int":
        ix = E.int("i", -n, n - 1)
    elif form == "slice":
        ix = index_of(E, "z", n)
        E.require(isinstance(ix, slice))
    else:
        ix = (index_of(E, "z", n), index_of(E, "y", h), index_of(E, "x", w))
    got = E.run(o.__getitem__, ix)
    ref = vol[ix].astype("float32")
    E.ensure("same_shape", np.shape(got) == ref.shape, "%s for %s" % (np.shape(got), ix))
    E.ensure("same_type", np.asarray(got).dtype == np.float32)
    E.ensure("same_values", bool(np.array_equal(got, ref)))


@contract("A14", CONV, "HdfEmulatorFromTif", {}, bounded=True, samples=30, rt_budget=4, name="converter.HdfEmulatorFromTif(out of range)")
def hdf_emulator_range(E):
    n = E.size("n", 1, 5)
    p, vol = E.dataset("data", (n, 2, 3), "tif")
    o = E.call(p)
    i = E.int("i", -9, 9)
    E.require(i >= n or i < -n)
    E.run(o.__getitem__, i if E.bool("plain") else (i, slice(None), slice(None)), _raises={"IndexError": True})


# ------------------------------------------------------------------------------------------------ A15
@contract("A15", LOSA, "make_file_name", {}, bounded=True, samples=60, rt_budget=4)
def make_file_name(E):
    b = E.scratch()
    base = ["a", "img_0001", "my.data", "x_0000"][E.int("base", 0, 3)]
    ext = [".tif", ".hdf", "", ".txt"][E.int("ext", 0, 3)]
    n = E.int("existing", 0, 12)
    names = [base + ext] + ["%s_%04d%s" % (base, k, ext) for k in range(n)]
    for k, x in enumerate(names):
        if E.int("there%d" % k, 0, 5):
            if E.int("dir%d" % k, 0, 6):
                open(b.path(x), "w").write("old %d" % k)
            else:
                os.makedirs(b.path(x))
    before = b.tree()
    r = E.call(b.path(base + ext))
    E.ensure("free", not os.path.lexists(r))
    E.ensure("same_folder", os.path.dirname(r) == b.dir)
    E.ensure("unchanged_if_free", os.path.exists(b.path(base + ext)) or r == b.path(base + ext))
    E.ensure("same_type", os.path.splitext(r)[1] == os.path.splitext(base + ext)[1])
    E.ensure("nothing_written", b.tree() == before)


@contract("A15", LOSA, "make_folder_name", {}, bounded=True, samples=80, rt_budget=4)
def make_folder_name(E):
    b = E.scratch()
    pre = ["Output", "Scan", "a"][E.int("prefix", 0, 2)]
    z = E.int("zeros", 1, 6)
    for k in range(E.int("n", 0, 8)):
        x = "%s_%s" % (pre, str(E.int("num%d" % k, 0, 12)).zfill(z))
        if not os.path.exists(b.path(x)):
            if E.int("file%d" % k, 0, 3):
                os.makedirs(b.path(x))
            else:
                open(b.path(x), "w").write("x")
    before = b.tree()
    r = E.call(b.dir, name_prefix=pre, zero_prefix=z)
    E.ensure("free", not os.path.lexists(b.path(r)))
    E.ensure("prefix", r.startswith(pre + "_") and r[len(pre) + 1:].isdigit())
    E.ensure("nothing_written", b.tree() == before)


def occupy(E, b, name, stem, ext):
    """Some files that exist already, and what they hold."""
    for k in range(E.int("existing", 0, 3)):
        x = name if k == 0 else "%s_%04d%s" % (stem, k - 1, ext)
        os.makedirs(os.path.dirname(b.path(x)), exist_ok=True)
        open(b.path(x), "w").write("precious %d" % k)


def kept(before, after):
    return all(after.get(k, "gone") == v for k, v in before.items())


@contract("A15", LOSA, "save_image", dict(ext=[".tif", ".tiff", ".png", ".jpg"]), bounded=True, samples=30, rt_budget=4, frame=True)
def save_image(E, ext):
    np = np_()
    from vc import rt_io
    b = E.scratch()
    h, w = E.size("h", 1, 5), E.size("w", 1, 5)
    m = E.array("mat", (h, w), dtype=["float32", "uint8", "uint16"][E.int("type", 0, 2)])
    if not ext.startswith(".tif"):
        E.require(m.max() > m.min())
    sub = ["", "new/folder/"][E.int("folder", 0, 1)]
    occupy(E, b, sub + "a" + ext, sub + "a", ext)
    before = b.tree()
    over = E.bool("overwrite")
    r = E.call(b.path(sub + "a" + ext), m, overwrite=over)
    after = b.tree()
    if not over:
        E.ensure("nothing_destroyed", kept(before, after))
    new = [k for k in after if (k not in before or before[k] != after[k]) and not k.endswith("/")]
    E.ensure("one_file", len(new) == 1 and os.path.realpath(str(r)) == os.path.realpath(b.path(new[0])))
    if ext.startswith(".tif"):
        E.ensure("value", bool(np.array_equal(rt_io.read_tif(str(r)), m)))


@contract("A15", LOSA, "save_image_multiple", dict(axis=[0, 1, 2], how=["folder", "list"]), bounded=True, samples=30, rt_budget=4, frame=True)
def save_image_multiple(E, axis, how):
    np = np_()
    from vc import rt_io
    b = E.scratch()
    v = E.array("stack", (E.size("d", 1, 5), E.size("h", 1, 5), E.size("w", 1, 5)))
    n = v.shape[axis]
    s = [0, 0, 7, 9998, 99997, 123456][E.int("start", 0, 5)] if how == "folder" else 0
    over = E.bool("overwrite")
    names = ["img_%05d.tif" % (s + k) for k in range(n)]
    if how == "list":
        names = [x.replace("img", "z") for x in names]
    os.makedirs(b.path("o"))
    old = {}
    for x in names:
        if E.int("there_" + x, 0, 2) == 0:
            open(b.path("o", x), "w").write("precious")
            old[x] = 1
    before = b.tree()
    kw = dict(axis=axis, overwrite=over, ncore=[None, 1, 2][E.int("ncore", 0, 2)])
    if how == "folder":
        E.call(b.path("o"), v, start_idx=s, **kw)
    else:
        E.call([b.path("o", x) for x in names], v, **kw)
    after = b.tree()
    if not over:
        E.ensure("nothing_destroyed", kept(before, after))
    new = sorted(k for k in after if before.get(k) != after[k] and not k.endswith("/"))
    E.ensure("one_file_each", len(new) == n, str(new)[:200])
    imgs = [rt_io.read_tif(b.path(k)) for k in new]
    ref = np.moveaxis(v, axis, 0)
    if over or not old:
        E.ensure("in_order", all(np.array_equal(x, y) for x, y in zip(imgs, ref)))
    else:
        E.ensure("all_images", all(any(np.array_equal(x, y) for x in imgs) for y in ref))


@contract("A15", LOSA, "save_image_multiple", dict(axis=[0, 1, 2]), bounded=True, samples=8, rt_budget=6, name="loadersaver.save_image_multiple(many)")
def save_many(E, axis):
    """The names of very many images, with the writing replaced by a recorder."""
    np = np_()
    m = E.fn("save_image").__globals__
    real = m["save_image"]
    s, n = E.int("start", 0, 3) * 49999, E.int("n", 49990, 100020, small=200000)
    sh = [1, 1, 1]
    sh[axis] = n
    v = np.broadcast_to(np.zeros((1, 1, 1), dtype="float32"), sh)
    rec = []
    try:
        m["save_image"] = lambda path, mat, overwrite=True: rec.append(path)
        E.call("/nowhere/o", v, axis=axis, start_idx=s, ncore=1)
    finally:
        m["save_image"] = real
    E.ensure("one_file_each", len(rec) == n and len(set(rec)) == n)
    E.ensure("names_sort_in_order", rec == sorted(rec))


@contract("A15", LOSA, "open_hdf_stream", dict(ext=["", ".hdf", ".h5", ".nxs", ".hdf5", ".tif"]), bounded=True, samples=15, rt_budget=3)
def open_hdf_stream(E, ext):
    b = E.scratch()
    real = ext if ext in (".hdf", ".h5", ".nxs", ".hdf5") else ".hdf"
    occupy(E, b, "a" + real, "a", real)
    before = b.tree()
    over = E.bool("overwrite")
    d, h, w = E.size("d", 1, 3), E.size("h", 1, 3), E.size("w", 1, 3)
    dt = ["float32", "uint8", "uint16"][E.int("type", 0, 2)]
    r = E.call(b.path("a" + ext), (d, h, w), key_path="entry/x", data_type=dt, overwrite=over)
    E.ensure("shape", tuple(r.shape) == (d, h, w) and str(r.dtype) == dt)
    r[...] = 3
    name = r.file.filename
    r.file.close()
    from vc import rt_io
    E.ensure("written", bool((rt_io.read_hdf(name, "entry/x") == 3).all()) and os.path.splitext(name)[1] == real)
    if not over:
        E.ensure("nothing_destroyed", kept(before, b.tree()))


@contract("A15", LOSA, "save_distortion_coefficient", dict(ext=["", ".txt", ".dat", ".csv"]), bounded=True, samples=15, rt_budget=3,
          name="loadersaver.save_distortion_coefficient(names)")
def save_coef_names(E, ext):
    b = E.scratch()
    real = ext if ext in (".txt", ".dat") else ".txt"
    occupy(E, b, "c" + real, "c", real)
    before = b.tree()
    over = E.bool("overwrite")
    r = E.call(b.path("c" + ext), 1.5, 2.5, [1.0, 1e-4], overwrite=over)
    after = b.tree()
    if not over:
        E.ensure("nothing_destroyed", kept(before, after))
    new = [k for k in after if before.get(k) != after[k]]
    E.ensure("one_file", len(new) == 1 and os.path.realpath(str(r)) == os.path.realpath(b.path(new[0])) and new[0].endswith(real))


@contract("A15", POST, "rescale_dataset", dict(func=["rescale_dataset", "downsample_dataset", "reslice_dataset"], out=["hdf", "tif"]),
          bounded=True, samples=8, rt_budget=3, name="postprocessing.outputs(no overwrite)")
def dataset_outputs(E, func, out):
    """An existing output is refused without overwriting and is not changed."""
    inp, vol = E.dataset("data", (E.size("d", 1, 4), 3, 3), "tif")
    b = E.scratch()
    dst = E.output("out", out)
    if out == "hdf":
        open(dst, "w").write("precious")
    else:
        os.makedirs(dst)
        open(dst + "/img_00000.tif", "w").write("precious")
    before = b.tree()
    kw = {"rescale_dataset": dict(minmax=(0, 1)), "downsample_dataset": dict(cell_size=1), "reslice_dataset": dict(show_progress=False)}[func]
    E.run(E.fn(func), inp, dst, _raises={"ValueError": True}, **kw)


# ------------------------------------------------------------------------------------------------ A31
@contract("A31", LOSA, "save_distortion_coefficient", dict(kind=["float", "numpy", "int"]), bounded=True, samples=400, rt_budget=8)
def coefficients(E, kind):
    np = np_()
    b = E.scratch()
    n = E.int("n", 0, 8)

    def num(t):
        if kind == "int":
            return E.int(t, -10 ** 6, 10 ** 6)
        m, e = E.real(t, -10, 10), E.int(t + "_exp", -300, 300, small=600, dim=False)
        x = m * 10.0 ** e
        return np.float64(x) if kind == "numpy" else x
    x, y = num("x"), num("y")
    c = [num("c%d" % k) for k in range(n)]
    ext = ["", ".txt", ".dat"][E.int("ext", 0, 2)]
    arg = [list(c), tuple(c), np.asarray(c)][E.int("container", 0, 2)]
    p = E.call(b.path("coef" + ext), x, y, arg)
    E.ensure("written", os.path.exists(str(p)))
    r = E.run(E.fn("load_distortion_coefficient"), str(p))
    E.ensure("centre", float(r[0]) == float(x) and float(r[1]) == float(y))
    E.ensure("factors", len(r[2]) == n and all(float(u) == float(v) for u, v in zip(r[2], c)), "%r %r" % (r[2], c))
