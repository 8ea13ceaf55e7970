"""C05: requested derivatives."""
import itertools

from .spl import Cfg, all_locs, one_off, unit


def orders_of(d):
    if d == 1:
        return [((0,), (1,)), ((1,),)]
    if d == 2:
        return [tuple(itertools.product((0, 1), repeat=2)), ((0, 1), (1, 0))]
    if d == 3:
        return [((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)), ((1, 1, 0), (0, 1, 1), (1, 1, 1))]
    return [((0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)), ((1, 0, 1, 0), (0, 1, 0, 1))]


def units(tier):
    out = []
    full = tier == "thorough"
    for k in (1, 3):
        for dims in ("u", "n", "uu", "un", "nn", "uuu", "nun", "uuuu", "nnnn") if k == 1 else ("u", "uu", "uuu", "uuuu"):
            d = len(dims)
            IU = ("open",) if k == 1 else ("in", "end")
            IN = ("open",)
            for no, orders in enumerate(orders_of(d)):
                for vec in (True, False):
                    for vv in (False, True):
                        for mode in ("linear", "constant"):
                            if d >= 3 and not full and (vv != vec or (mode == "constant") != (no == 1)):
                                continue
                            if d == 4 and not full and (no == 1) == vec:
                                continue
                            if mode == "constant":
                                ls = one_off(dims, ("lo", "hi"), ("lo", "hi"), IU[0], IN[0])
                                if d <= 2:
                                    ls += all_locs(dims, IU, IN)
                            elif d <= 2:
                                ls = all_locs(dims, IU + ("lo", "hi"), IN + ("lo", "hi"))
                            else:
                                ls = one_off(dims, ("lo", "hi"), ("lo", "hi"), IU[0], IN[0])
                                ls.append(tuple(IU[0] if c == "u" else IN[0] for c in dims))
                                if k == 3:
                                    ls.append(("end",) * d)
                                if d == 4 and k == 3 and not full:
                                    ls = [ls[0], ls[3], ls[-2], ls[-1]]
                            cfg = Cfg(k, dims, mode, vec, vv, vec and no == 0, orders=orders)
                            heavy = k == 3 and d == 4
                            out.append(unit(cfg, ls, cases=2, con=(not heavy) or full))
    # second and higher orders of linear splines are zero
    for dims, orders in (("u", ((2,), (1,))), ("n", ((3,), (0,), (2,))), ("uu", ((2, 0), (1, 1), (0, 3))),
                         ("un", ((0, 2), (1, 0))), ("nn", ((1, 2), (0, 0))), ("uuu", ((2, 0, 1), (0, 0, 2), (0, 1, 0)))):
        for vec, vv in ((True, False), (False, True)):
            ls = all_locs(dims, ("open", "lo", "hi"), ("open", "lo", "hi")) if len(dims) < 3 else \
                one_off(dims, ("lo", "hi"), ("lo", "hi"), "open", "open")
            out.append(unit(Cfg(1, dims, "linear", vec, vv, False, orders=orders), ls, cases=2))
    return out
