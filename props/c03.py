"""C03: cubic evaluation inside the grid is the tensor-product B-spline."""
from .spl import Cfg, all_locs, one_off, unit


def units(tier):
    out = []
    full = tier == "thorough"
    for dims in ("u", "uu", "uuu", "uuuu"):
        d = len(dims)
        ls = all_locs(dims, ("in", "end"), ())
        if d == 4 and not full:
            ls = [("in",) * 4, ("end",) * 4] + one_off(dims, ("end",), ())[:2]
        for vec in (True, False):
            for vv in (False, True):
                cfg = Cfg(3, dims, "linear", vec, vv, False, entry="eval_cubic", opt=False)
                out.append(unit(cfg, ls, con=d < 4 or vec == vv or full))
                cfg = Cfg(3, dims, "linear", vec, vv, True, entry="eval_cubic")
                if not cfg.returns_value() and (d <= 2 or full):
                    out.append(unit(cfg, ls, con=d == 1 or full))
                if d <= 2:
                    for mode in ("nearest", "constant"):
                        out.append(unit(Cfg(3, dims, mode, vec, vv, False, entry="eval_cubic"), ls, con=d == 1 or full))
        cfg = Cfg(3, dims, "nearest", True, False, False, entry="eval_spline")
        if d >= 3 and not full:
            ls = [tuple("open" if x == "in" else x for x in l) for l in ls]
        out.append(unit(cfg, ls, con=d < 4 or full))
        cfg = Cfg(3, dims, "constant", True, False, False, entry="eval_spline")
        out.append(unit(cfg, ls, con=d < 4 or full))
    return out
