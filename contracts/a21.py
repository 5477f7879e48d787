"""A21 polar and Cartesian coordinate maps, map of the direct Fourier inversion."""
from vc.spec import *

UTI = "algotom.util.utility"
REC = "algotom.rec.reconstruction"


def dims(E, *names, **kw):
    return [E.size(n, 3, 30000) for n in names]


@contract("A21", UTI, "rectangular_from_polar", {})
def rectangular_from_polar(E):
    wr, hr, wp, hp = dims(E, "width_reg", "height_reg", "width_pol", "height_pol")
    x, y = E.call(wr, hr, wp, hp)
    E.ensure("shape", land(*[eq(a.shape[k], n) for a in (x, y) for k, n in ((0, hp), (1, wp))]))
    E.forall("x_inside", (hp, wp), lambda i, j: between(0, at(x, i, j), wr - 1))
    E.forall("y_inside", (hp, wp), lambda i, j: between(0, at(y, i, j), hr - 1))
    xc, yc = div(wr - 1, 2), div(hr - 1, 2)
    rmax = floor(imax(xc, yc))
    th = lambda i: div(i * 2 * fpi(), hp - 1)          # one full turn over the rows
    rad = lambda j: div(j * rmax, wp - 1)              # from the centre outwards over the columns
    if E.rt:
        TOL[0] = 1e-4
    E.forall("x", (hp, wp), lambda i, j: eq(at(x, i, j), clip(0, xc + rad(j) * fcos(th(i)), wr - 1)))
    E.forall("y", (hp, wp), lambda i, j: eq(at(y, i, j), clip(0, yc + rad(j) * fsin(th(i)), hr - 1)))


@contract("A21", UTI, "polar_from_rectangular", {})
def polar_from_rectangular(E):
    wp, hp, wr, hr = dims(E, "width_pol", "height_pol", "width_reg", "height_reg")
    r, t = E.call(wp, hp, wr, hr)
    E.ensure("shape", land(*[eq(a.shape[k], n) for a in (r, t) for k, n in ((0, hr), (1, wr))]))
    E.forall("radius_inside", (hr, wr), lambda i, j: between(0, at(r, i, j), wp - 1))
    E.forall("angle_inside", (hr, wr), lambda i, j: between(0, at(t, i, j), hp - 1))
    xc, yc = div(wr - 1, 2), div(hr - 1, 2)
    # the position seen from the centre, turned by half a turn
    dx, dy = (lambda j: wr - 1 - j - xc), (lambda i: hr - 1 - i - yc)
    rmax = floor(imax(xc, yc))
    if E.rt:
        TOL[0] = 1e-4
    E.forall("radius", (hr, wr), lambda i, j: eq(at(r, i, j), imin(fsqrt(div(dx(j) * wp, rmax) * div(dx(j) * wp, rmax)
                                                                         + div(dy(i) * wp, rmax) * div(dy(i) * wp, rmax)), wp - 1)))
    E.forall("angle", (hr, wr), lambda i, j: eq(at(t, i, j), div((fpi() + fatan2(div(dy(i) * wp, rmax), div(dx(j) * wp, rmax))) * (hp - 1),
                                                                 2 * fpi())))


@contract("A21", REC, "generate_mapping_coordinate", {})
def generate_mapping_coordinate(E):
    ws, hs, wr, hr = dims(E, "width_sino", "height_sino", "width_rec", "height_rec")
    r, t = E.call(ws, hs, wr, hr)
    E.ensure("shape", land(*[eq(a.shape[k], n) for a in (r, t) for k, n in ((0, hr), (1, wr))]))
    E.forall("radius_inside", (hr, wr), lambda i, j: between(0, at(r, i, j), ws - 1))
    if E.rt:
        E.forall("angle_inside", (hr, wr), lambda i, j: land(at(t, i, j) >= -1e-3, at(t, i, j) <= (hs - 1) * (1 + 1e-6) + 1e-3))
        TOL[0] = 1e-4
    else:
        E.forall("angle_inside", (hr, wr), lambda i, j: between(0, at(t, i, j), hs - 1))
    xc, yc = div(wr - 1, 2), div(hr - 1, 2)
    rmax = floor(imin(xc, yc))
    dx, dy = (lambda j: wr - 1 - j - xc), (lambda i: i - yc)

    def polar(i, j):
        """Signed radius from the middle of the spectrum, and the angle within half a turn."""
        a = fatan2(dy(i), dx(j))
        rad = imin(fsqrt(dx(j) * dx(j) + dy(i) * dy(i)), rmax)
        return ite(a > 0, -rad, rad), fpi() + a - ite(a > 0, fpi(), 0)
    E.forall("radius", (hr, wr), lambda i, j: eq(at(r, i, j), clip(0, polar(i, j)[0] + rmax, ws - 1)))
    E.forall("angle", (hr, wr), lambda i, j: eq(at(t, i, j), div(polar(i, j)[1] * (hs - 1), fpi())))
