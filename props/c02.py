"""C02: extrapolation outside the grid."""
from .spl import Cfg, MODES, all_locs, one_off, unit


def outside(dims, full, base="in"):
    SU, SN = ("in", "end", "lo", "hi"), ("in", "start", "lo", "hi")
    if full:
        ls = all_locs(dims, SU, SN)
    else:
        ls = one_off(dims, ("lo", "hi"), ("lo", "hi"), base, base)
        ls += [("lo",) * len(dims), ("hi",) * len(dims)]
        alt = tuple("lo" if i % 2 else "hi" for i in range(len(dims)))
        ls.append(alt)
    return [l for l in ls if any(x in ("lo", "hi") for x in l)]


def units(tier):
    out = []
    full = tier == "thorough"
    for mode in MODES:
        for dims in ("u", "n", "uu", "un", "nn", "uuu", "nun", "uuuu", "nnnn"):
            d = len(dims)
            for vec in (True, False):
                for vv in (False, True):
                    if d >= 3 and vv != vec and not full:
                        continue
                    cfg = Cfg(1, dims, mode, vec, vv, False, entry="eval_linear")
                    out.append(unit(cfg, outside(dims, d <= 2 or full,
                                                 "open" if mode == "nearest" else "in")))
        for dims in ("u", "uu", "uuu", "uuuu"):
            d = len(dims)
            for vec in (True, False):
                for vv in (False, True):
                    if d >= 3 and vv != vec and not full:
                        continue
                    cfg = Cfg(3, dims, mode, vec, vv, False, entry="eval_cubic")
                    big = d == 4
                    out.append(unit(cfg, outside(dims, d <= 2 or (full and d == 3),
                                                 "open" if mode == "nearest" else "in"), cases=2 if big else 3,
                                    con=not (big and vec and not full) or mode == "linear"))
    # with an output array
    for k in (1, 3):
        for mode in MODES:
            for dims in ("u", "n", "un", "uu", "nun", "uuu", "nnuu", "uuuu"):
                if k == 3 and "n" in dims:
                    continue
                d = len(dims)
                for vec, vv in ((1, 0), (1, 1), (0, 1)):
                    if d > 2 and not full and not (vec and vv == (mode == "constant")):
                        continue
                    cfg = Cfg(k, dims, mode, bool(vec), bool(vv), True)
                    out.append(unit(cfg, outside(dims, d == 1 or full and d < 4, "open" if mode == "nearest" else "in"), cases=2,
                                    con=d <= 2 or full))
    # the default of the short call is linear extrapolation
    for k, e in ((1, "eval_linear"), (3, "eval_cubic")):
        for dims in ("u", "uu"):
            out.append(unit(Cfg(k, dims, "linear", True, False, True, entry=e, opt=False), outside(dims, True)))
    return out
