"""C06: every way of calling gives the same values, outputs are overwritten,
inputs untouched."""
from .spl import Cfg, MODES, all_locs, one_off, unit

# Every call shape is proved equal to one and the same mathematical function of
# (grid, coefficients, point, component), so any two of them agree.


def places(dims, k, mode, few):
    inu, inn = ("open", "open") if mode == "nearest" else ("in", "in")
    if len(dims) == 1 and not few:
        return all_locs(dims, ("in", "end", "lo", "hi"), ("in", "start", "lo", "hi"))
    ls = [tuple(inu if c == "u" else inn for c in dims)]
    if few:
        return ls + [("lo",) + ls[0][1:], ls[0][:-1] + ("hi",)]
    return ls + one_off(dims, ("end", "lo", "hi"), ("start", "lo", "hi"), inu, inn)


def units(tier):
    out = []
    full = tier == "thorough"
    for k in (1, 3):
        for mode in MODES:
            for dims in (("u", "n", "un", "nn", "uuu", "nun", "uuuu", "nunu") if k == 1 else ("u", "uu", "uuu", "uuuu")):
                d = len(dims)
                for vec in (True, False):
                    for vv in (False, True):
                        cfg = Cfg(k, dims, mode, vec, vv, True, entry="eval_linear" if k == 1 else "eval_cubic")
                        if cfg.returns_value():
                            continue
                        if d == 4 and not full and not (vec and vv):
                            continue
                        out.append(unit(cfg, places(dims, k, mode, d > 2 and not full), cases=2,
                                        con=d < 4 or full))
                        if d <= 2 or full:
                            c2 = Cfg(k, dims, mode, vec, vv, True, entry="eval_spline")
                            out.append(unit(c2, places(dims, k, mode, True), cases=2, con=full))
                if d <= 2:
                    o = ((0,) * d, (1,) * d)
                    if mode == "nearest":
                        continue
                    for vec in (True, False):
                        for vv in (False, True):
                            cfg = Cfg(k, dims, mode, vec, vv, True, orders=o)
                            ls = one_off(dims, ("open", "lo", "hi"), ("open", "lo", "hi"), "open", "open")
                            out.append(unit(cfg, ls, cases=2))
    # memory layout and read-only arrays
    for k, e in ((1, "eval_linear"), (3, "eval_cubic")):
        for dims in ("u", "uu", "uuu") if full else ("u", "uu"):
            for lay, ro in (("F", False), ("A", False), ("C", True), ("F", True), ("A", True)):
                if len(dims) == 1 and lay == "F":
                    continue
                for vec, vv in ((1, 0), (1, 1), (0, 1), (0, 0)):
                    out.append(unit(Cfg(k, dims, "linear", bool(vec), bool(vv), False, entry=e, layout=lay, ro=ro),
                                    places(dims, k, "linear", True), cases=1, con=len(dims) == 2 and (k == 1 or vec != vv)))
    # the default of the call with an output array
    for k, e in ((1, "eval_linear"), (3, "eval_cubic")):
        for dims in ("u", "uu"):
            for vec, vv in ((1, 0), (1, 1), (0, 1)):
                out.append(unit(Cfg(k, dims, "linear", bool(vec), bool(vv), True, entry=e, opt=False),
                                places(dims, k, "linear", True), cases=2))
    # functions taking bounds and orders
    for k in (1, 3):
        for dims in ("u", "uu", "uuu", "uuuu"):
            d = len(dims)
            for vec in (True, False):
                for vv in (False, True):
                    for o in (False, True):
                        cfg = Cfg(k, dims, "linear", vec, vv, o, entry="compat")
                        if o and cfg.returns_value():
                            continue
                        if d == 4 and not full and (o or vec != vv):
                            continue
                        out.append(unit(cfg, places(dims, k, "linear", d > 1), cases=2, con=d < 4 or full))
            for vec in (True, False):
                for vv in (False, True):
                    if d == 4 and not full and vec != vv:
                        continue
                    out.append(unit(Cfg(k, dims, "linear", vec, vv, False, entry="object"),
                                    places(dims, k, "linear", True), cases=2, con=d < 4 or full))
    out.append(unit(Cfg(3, "uu", "linear", True, False, False, entry="object", opt=False), places("uu", 3, "linear", True)))
    out.append(unit(Cfg(3, "uu", "linear", True, True, False, entry="object", opt=False), places("uu", 3, "linear", True)))
    out.append(unit(Cfg(3, "uu", "linear", False, False, False, entry="object", opt=False), places("uu", 3, "linear", True)))
    out.append(unit(Cfg(3, "uu", "linear", True, False, True, entry="object", opt=False), places("uu", 3, "linear", True)))
    return out
