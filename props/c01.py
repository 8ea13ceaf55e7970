"""C01: multilinear interpolation inside the grid."""
from .spl import Cfg, all_locs, unit


def units(tier):
    out = []
    full = tier == "thorough"
    IU, IN = ("in", "end"), ("in", "start")
    for dims in ("u", "n", "uu", "un", "nu", "nn", "uuu", "unu", "nnn", "uuuu", "unun", "nnnn"):
        d = len(dims)
        shapes = [(1, 0, 0), (0, 0, 0), (1, 1, 0), (0, 1, 0), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
        for vec, vv, o in shapes:
            if d > 2 and o and not full:
                continue
            cfg = Cfg(1, dims, "linear", bool(vec), bool(vv), bool(o), entry="eval_linear", opt=False)
            out.append(unit(cfg, all_locs(dims, IU, IN), con=not o or full))
        # the other extrapolation rules do not matter inside
        for mode in ("nearest", "constant"):
            for vec, vv, o in ((1, 0, 0), (1, 1, 1), (0, 0, 0), (0, 1, 0)):
                if d > 2 and (o or not vec) and not full:
                    continue
                cfg = Cfg(1, dims, mode, bool(vec), bool(vv), bool(o))
                ls = all_locs(dims, IU, IN) if d <= 2 else [
                    tuple("open" for c in dims), tuple("end" if c == "u" else "start" for c in dims)]
                out.append(unit(cfg, ls, con=d == 2 or full))
    return out
