"""A16 parallel processing of slices."""
from vc.spec import *

UTI = "algotom.util.utility"


@contract("A16", UTI, "parallel_process_slices", dict(axis=[0, 1, 2, "default"], ncore=[None, 1, 4], prefer=["threads", "processes", None],
                                                      par=["list", "scalar", "empty", "array", "kwargs"], grow=[(0, 0), (1, 2)]),
          where=lambda axis, ncore, prefer, par, grow: (ncore != 1) + (prefer is not None) + (par != "list") + (grow != (0, 0)) <= 1,
          rt_budget=3.0)
def parallel_process_slices(E, axis, ncore, prefer, par, grow):
    d, h, w = E.size("d", 1, 30000, small=4), E.size("h", 1, 30000, small=4), E.size("w", 1, 30000, small=4)
    a = E.array("data", (d, h, w))
    f = E.method("f", grow)
    p = E.real("p", 0.5, 2)
    q = E.int("q", 0, 9, dim=False)
    kw = {}
    if par == "list":
        pars = [p, q]
    elif par == "scalar":
        pars = p
    elif par == "empty":
        pars = []
    elif par == "array":
        pars = [E.array("mask", (h,))]
    else:
        pars, kw = [p], dict(gain=q)
    plist = pars if isinstance(pars, list) else [pars]
    opts = {}
    if prefer is not None:
        opts["prefer"] = prefer
    if axis != "default":
        opts["axis"] = axis
    r = E.call(a, f, pars, ncore=ncore, **opts, **kw)
    ax = 1 if axis == "default" else axis
    n = (d, h, w)[ax]
    rest = [x for i, x in enumerate((d, h, w)) if i != ax]
    out = [rest[0] + grow[0], rest[1] + grow[1]]
    out.insert(ax, n)
    E.ensure("shape", land(*[eq(x, y) for x, y in zip(r.shape, out)]))
    if E.rt:
        TOL[0] = 1e-4
    memo = {}

    def slice_of(k):
        if E.rt and k in memo:
            return memo[k]
        ix = [slice(None)] * 3
        ix[ax] = k
        memo[k] = f(view(a, *ix), *plist, **kw)
        return memo[k]

    def value(i, j, k):
        ix = [i, j, k]
        s = ix.pop(ax)
        return eq(at(r, i, j, k), at(slice_of(s), *ix))
    E.forall("slice", tuple(out), value)
