"""A06 helical-scan sinograms."""
from vc.spec import *

CONV = "algotom.prep.conversion"
CALC = "algotom.prep.calculation"


@contract("A06", CALC, "calculate_reconstructable_height", dict(st=["180", "360"]), frame=False)
def reconstructable_height(E, st):
    a, b, p = E.real("y_start", -100, 100), E.real("y_stop", -100, 100), E.real("pitch", 0.1, 50)
    r = E.call(a, b, p, st)
    k = div(p, 2) if st == "180" else p
    E.ensure("range", land(eq(at(r, 0), a + k), eq(at(r, 1), b - k)))


@contract("A06", CALC, "calculate_maximum_index", dict(st=["180", "360"]), frame=False)
def maximum_index(E, st):
    a, b, p = E.real("y_start", -10, 10), E.real("y_stop", 60, 100), E.real("pitch", 0.1, 20)
    px = E.real("pixel", 0.5, 3)
    m = E.call(a, b, p, px, st)
    k = p if st == "180" else 2 * p
    # the largest index whose height y_s + (m - 1) * pixel stays inside the reconstructable range
    if E.rt:
        TOL[0] = 1e-9
    E.ensure("inside", land(le((m - 1) * px, b - a - k), gt(m * px, b - a - k)))


@contract("A06", CALC, "calculate_maximum_index", frame=False, name="calculation.calculate_maximum_index(bad type)")
def bad_type(E):
    E.call(0.0, 10.0, 1.0, 1.0, "90", _raises={"ValueError": True})


def scan(E, st, crop, fields, ang, full):
    d = E.size("depth", 2, 30000, small=30)
    H, W = E.size("height", 1, 3000, small=20), E.size("width", 1, 3000)
    if crop:
        ct, cb = E.int("crop_top", 0, H - 1), E.int("crop_bottom", 0, 5)
        cl, cr = E.int("crop_left", 0, W - 1), E.int("crop_right", 0, 5)
        E.require(ct + cb < H, cl + cr < W)
    else:
        ct = cb = cl = cr = 0
    h, w = H - cb - ct, W - cr - cl
    data = E.array("data", (d, H, W), lo=0.1)
    npj = E.int("num_proj", 2, 2000, small=6)
    px = E.real("pixel", 0.5, 2)
    pitch = E.real("pitch", 2, 20)
    y0 = E.real("y_start", -5, 5)
    y1 = y0 + E.real("travel", 1, 60)
    idx = E.int("index", -1, 12, dim=False)
    kw = dict(scan_type=st)
    if crop:
        kw["crop"] = (ct, cb, cl, cr)
    if fields:
        F = kw["flat"] = E.array("flat", (H, W), lo=2, hi=4)
        D = kw["dark"] = E.array("dark", (H, W), lo=0, hi=1)
    if ang:
        A = kw["angles"] = E.array("angles", (d,), dtype="float64")
    ys, ye = (y0 + div(pitch, 2), y1 - div(pitch, 2)) if st == "180" else (y0 + pitch, y1 - pitch)
    mx = trunc(div(ye - ys, px)) + 1
    stp = div(pitch, 2 * (npj - 1))
    ypos = (idx - 1) * px + ys
    i0 = ceil(div(ye - ypos, stp))
    if full:
        n = floor(div(px * h, stp)) - 1
        ok = land(n >= 0, i0 >= 0, i0 < d, i0 + n < d)
    else:
        n = npj if st == "180" else 2 * (npj - 1) + 1
        ok = land(idx >= 0, idx <= mx, i0 >= 0, i0 < d)

    def jrow(k):
        return div(ye + px * h - (i0 + k) * stp - ypos, px) - 1
    # possible: every projection and row that the request needs exists (rows fall monotonically along the sinogram)
    possible = land(ok, i0 + n <= d, implies(n >= 1, land(jrow(0) < h, jrow(n - 1) >= 0)))
    refuse = lnot(possible) if E.rt or not full else True
    r = E.call(idx, data, npj, px, y0, y1, pitch, _may_raise={"ValueError": refuse, "IndexError": refuse}, **kw)
    E.ensure("request", ok)
    s, la = at(r, 0), at(r, 1)
    E.hint(n - 1, i0 + n - 1)
    E.ensure("shape", land(eq(s.shape[0], imax(n, 0)), eq(s.shape[1], w)))
    E.ensure("angle_count", eq(length(la), imax(n, 0)))
    if full:
        E.require(n >= 1)
    E.forall("angles", (n,), lambda k: eq(at(la, k), at(A, i0 + k) if ang else (i0 + k) * div(180, npj - 1)))
    # no row or projection outside the (cropped) data is ever used
    E.forall("inside", (n,), lambda k: land(i0 + k >= 0, i0 + k < d, jrow(k) >= 0, jrow(k) < h))

    def val(k, x):
        j = imin(jrow(k), h - 1)
        j = real(j)

        def cor(q):
            v = at(data, i0 + k, q + ct, cl + x)
            if not fields:
                return v
            a, b = at(F, q + ct, cl + x), at(D, q + ct, cl + x)
            return div(v - b, a - b)
        lo, up = floor(j), ceil(j)
        return ite(eq(lo, up), cor(lo), cor(lo) * (up - j) + cor(up) * (j - lo))
    if E.rt:
        TOL[0] = 1e-4
    E.forall("value", (n, w), lambda k, x: eq(at(s, k, x), val(k, x)))


@contract("A06", CONV, "generate_sinogram_helical_scan", dict(st=["180", "360"], crop=[False, True], fields=[False, True], ang=[False, True]),
          samples=300)
def helical(E, st, crop, fields, ang):
    scan(E, st, crop, fields, ang, False)


@contract("A06", CONV, "generate_full_sinogram_helical_scan", dict(st=["180", "360"], crop=[False, True], fields=[False, True], ang=[False, True]),
          samples=300)
def helical_full(E, st, crop, fields, ang):
    scan(E, st, crop, fields, ang, True)
