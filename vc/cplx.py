"""Complex arrays as pairs of real arrays; the discrete Fourier transforms are opaque deterministic functions."""
from . import terms as T
from . import arrays as A
from . import npmodel as N
from .arrays import Arr
from .terms import Unsupported


class CArr(object):
    """An array of complex numbers: exact arithmetic on the pair of real and imaginary parts."""

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def shape(self):
        return self.re.shape

    @property
    def ndim(self):
        return self.re.ndim

    dtype = "complex128"

    def sym_binop(self, op, o, rev):
        a, b = (parts(o), (self.re, self.im)) if rev else ((self.re, self.im), parts(o))
        f = lambda k, x, y: N.elementwise2(k, x, y)       # noqa
        if op in ("add", "sub"):
            return CArr(f(op, a[0], b[0]), f(op, a[1], b[1]))
        if op == "mul":
            if is_zero(b[1]):
                return CArr(f("mul", a[0], b[0]), f("mul", a[1], b[0]))
            if is_zero(a[1]):
                return CArr(f("mul", a[0], b[0]), f("mul", a[0], b[1]))
            return CArr(f("sub", f("mul", a[0], b[0]), f("mul", a[1], b[1])), f("add", f("mul", a[0], b[1]), f("mul", a[1], b[0])))
        if op == "truediv" and is_zero(b[1]):
            return CArr(f("truediv", a[0], b[0]), f("truediv", a[1], b[0]))
        raise Unsupported("complex operator %s" % op)

    def sym_unop(self, op):
        if op == "neg":
            return CArr(N.elementwise2("mul", self.re, -1), N.elementwise2("mul", self.im, -1))
        raise Unsupported("complex operator %s" % op)

    def sym_eq(self, o):
        raise Unsupported("comparison of complex arrays")

    def sym_getitem(self, idx):
        r, i = A.getitem(self.re, idx), A.getitem(self.im, idx)
        return CArr(r, i) if isinstance(r, Arr) else CScal(r, i)

    def sym_setitem(self, idx, v):
        re, im = parts(v)
        if self.re.buf is self.im.buf:
            raise Unsupported("shared parts")
        A.setitem(self.re, idx, re)
        A.setitem(self.im, idx, im)

    def sym_truth(self):
        raise Unsupported("truth of a complex array")

    def sym_attr(self, n):
        if n in ("shape", "ndim", "dtype"):
            return getattr(self, n)
        if n in ("real", "imag"):
            return self.re if n == "real" else self.im
        if n == "T":
            return CArr(N.np_transpose(self.re), N.np_transpose(self.im))
        if n == "conj":
            return lambda: conj(self)
        if n == "copy":
            return lambda: CArr(N.np_copy(self.re), N.np_copy(self.im))
        raise Unsupported("attribute %s of a complex array" % n)


class CScal(object):
    def __init__(self, re, im):
        self.re, self.im = re, im

    def sym_binop(self, op, o, rev):
        raise Unsupported("arithmetic on a complex element")

    def sym_attr(self, n):
        if n in ("real", "imag"):
            return self.re if n == "real" else self.im
        raise Unsupported("attribute %s of a complex number" % n)


def is_zero(x):
    return T.is_num(x) and not isinstance(x, T.Sym) and x == 0


def parts(o):
    if isinstance(o, (CArr, CScal)):
        return o.re, o.im
    if isinstance(o, complex):
        return T.norm_conc(o.real), T.norm_conc(o.imag)
    if isinstance(o, (list, tuple)):
        o = N.asarray(o)
    return o, 0


def binop(op, a, b):
    """Operator with a complex operand (python complex constants included)."""
    if isinstance(a, CArr):
        return a.sym_binop(op, b, False)
    if isinstance(b, CArr):
        return b.sym_binop(op, a, True)
    if isinstance(a, complex) and isinstance(b, Arr):
        z = N.elementwise2("mul", b, 0)
        return CArr(b, z).sym_binop(op, a, True)
    if isinstance(b, complex) and isinstance(a, Arr):
        return CArr(a, N.elementwise2("mul", a, 0)).sym_binop(op, b, False)
    raise Unsupported("complex operands")


def has(a, b):
    return isinstance(a, (CArr, complex)) or isinstance(b, (CArr, complex))


def conj(x):
    return CArr(x.re, N.elementwise2("mul", x.im, -1)) if isinstance(x, CArr) else x


def cabs(x):
    if not isinstance(x, CArr):
        return N.np_abs(x)
    f = N.elementwise2
    return N.elementwise1("sqrt", f("add", f("mul", x.re, x.re), f("mul", x.im, x.im)))


def each(f):
    """A rearrangement applies to both parts."""
    def g(a, *r, **k):
        if isinstance(a, CArr):
            return CArr(f(a.re, *r, **k), f(a.im, *r, **k))
        return f(a, *r, **k)
    return g


def each_list(f):
    def g(a, *r, **k):
        if isinstance(a, (list, tuple)) and any(isinstance(x, CArr) for x in a):
            ps = [parts(x) for x in a]
            return CArr(f([p[0] for p in ps], *r, **k),
                        f([N.elementwise2("mul", p[0], 0) if is_zero(p[1]) else p[1] for p in ps], *r, **k))
        return f(a, *r, **k)
    return g


def fft_shift(inv):
    def f(a, axes=None):
        a = N.asarray(a)
        ax = range(a.ndim) if axes is None else [axes % a.ndim] if T.is_num(axes) else [x % a.ndim for x in axes]
        for k in ax:
            h = T.s_floordiv(a.shape[k], 2)
            a = N.np_roll(a, T.s_sub(0, h) if inv else h, axis=k)
        return a
    return each(f)


def dft(name, nd):
    def f(a, *args, **kw):
        if args or [k for k in kw if k not in ("axis", "axes", "workers")]:
            raise Unsupported("%s with padding" % name)
        re, im = parts(a)
        re = N.asarray(re)
        arrs = [re] + ([] if is_zero(im) else [im])
        ax = kw.get("axis", kw.get("axes"))
        if nd == 1:
            ax = re.ndim - 1 if ax is None else ax % re.ndim
        A.ctx().assumptions.add("numpy/scipy %s is a deterministic function of its argument" % name)
        key = (repr(ax), len(arrs))
        mkp = lambda p: N.opaque_array(name + p, arrs, re.shape, (), "float64", key)     # noqa
        return CArr(mkp(".re"), mkp(".im"))
    return f


def install(libs):
    M = {}
    for n, nd in (("fft", 1), ("ifft", 1), ("fft2", 2), ("ifft2", 2), ("fftn", 9), ("ifftn", 9)):
        M[n] = dft(n, nd)
    M["fftshift"], M["ifftshift"] = fft_shift(False), fft_shift(True)
    libs.FFT.members.update(M)
    libs.MODULES["scipy.fft"].members.update(M)
    libs.SCIPY.members["fft"] = libs.MODULES["scipy.fft"]
    P = libs.NP.members
    for n in ("abs", "absolute"):
        P[n] = cabs
    P["real"] = lambda a: a.re if isinstance(a, CArr) else N.np_real(a)
    P["imag"] = lambda a: a.im if isinstance(a, CArr) else N.np_imag(a)
    P["conj"] = P["conjugate"] = conj
    for n in ("roll", "flipud", "fliplr", "flip", "transpose", "copy", "tile", "squeeze", "expand_dims", "moveaxis", "pad", "reshape"):
        P[n] = each(P[n])
    for n in ("vstack", "hstack", "concatenate", "dstack", "stack"):
        P[n] = each_list(P[n])


def polyfit(x, y, deg, **kw):
    """numpy.polyfit of degree 1 or 2 on a fixed number of equally spaced points: the least-squares coefficients."""
    x, y = N.asarray(x), N.asarray(y)
    n = x.shape[0]
    c = A.ctx()
    if kw or isinstance(deg, T.Sym) or deg not in (1, 2):
        raise Unsupported("polyfit")
    if isinstance(n, T.Sym):
        for k in (3, 4, 5):
            if c.known(T.toz(T.s_eq(n, k))):
                n = k
                break
        else:
            raise Unsupported("polyfit on a varying number of points")
    if n <= deg or n > 9:
        raise Unsupported("polyfit on %d points" % n)
    if not c.known(T.toz(T.s_eq(y.shape[0], n))):
        raise T.PyExc("TypeError", "expected x and y to have same length")
    xs, ys = [x.at(i) for i in range(n)], [T.toreal_s(y.at(i)) for i in range(n)]
    for i in range(1, n):
        e = T.s_eq(T.s_sub(xs[i], xs[0]), i)
        if not (e is True or c.known(T.toz(e))):
            raise Unsupported("polyfit on points that are not consecutive integers")
    c.assumptions.add("numpy.polyfit returns the least-squares coefficients (exact arithmetic)")
    from fractions import Fraction as Q
    m = Q(n - 1, 2)
    u = [Q(i) - m for i in range(n)]
    s2, s4 = sum(v ** 2 for v in u), sum(v ** 4 for v in u)

    def lin(ws):
        r = Q(0)
        for w, v in zip(ws, ys):
            r = T.s_add(r, T.s_mul(w, v))
        return r
    x0 = T.s_add(T.toreal_s(xs[0]), m)
    a = lin([(n * v ** 2 - s2) / (n * s4 - s2 ** 2) for v in u]) if deg == 2 else Q(0)
    b = lin([v / s2 for v in u])
    k = T.s_sub(lin([Q(1, n)] * n), T.s_mul(a, Q(s2, n)))
    # in terms of x: a (x - x0)^2 + b (x - x0) + k
    b2 = T.s_sub(b, T.s_mul(2, T.s_mul(a, x0)))
    k2 = T.s_add(T.s_sub(k, T.s_mul(b, x0)), T.s_mul(a, T.s_mul(x0, x0)))
    out = [a, b2, k2] if deg == 2 else [b2, k2]
    return N.asarray(out)
