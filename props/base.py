"""Units of verification.

A unit couples
 * prove(eng): contract obligations on the repository's own functions, all
   inputs symbolic (shapes included unless the unit is labelled bounded);
 * bounded: the same with concrete shapes, used only if prove() cannot be
   carried out on the current text (labelled bounded, never counted as proved);
 * draw / run: one concrete input and the check of the compiled public API on
   it against an independent oracle - used to replay counterexamples and as a
   cross-check of the reading of the code as real arithmetic."""
import numpy as np


class Unit:
    def __init__(self, name, prove=None, draw=None, run=None, bounded=None, bound="", cost=1.0, cases=6,
                 level="proved", model=None, max_paths=600, budget=240, paths_hint="", lemma=None,
                 contracts=None, thorough_cases=None, skip_unsupported=False):
        self.name = name
        self.prove = prove
        self.draw = draw
        self.run = run
        self.bounded = bounded          # () -> list of proofs with concrete shapes
        self.bound = bound
        self.cost = cost
        self.cases = cases
        self.thorough_cases = thorough_cases or 10 * cases
        self.level = level              # "proved" or "bounded: ..."
        self.model = model              # model dict -> draw
        self.max_paths = max_paths
        self.budget = budget
        self.case_limit = None          # seconds for one concrete case (Python code only)
        self.contracts = contracts      # eng -> dict label -> contract


def rng_of(seed):
    return np.random.default_rng(seed)


def close(got, want, rtol=1e-9, atol=1e-9, scale=None):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return "shape %r instead of %r" % (got.shape, want.shape)
    s = np.max(np.abs(want)) if want.size else 0.0
    if scale is not None:
        s = max(s, scale)
    bad = ~(np.abs(got - want) <= atol + rtol * (1 + s))
    if np.any(bad):
        ix = tuple(int(i) for i in np.argwhere(bad)[0]) if got.ndim else ()
        return "at %r: got %r, expected %r" % (ix, float(got[ix]), float(want[ix]))
    return None
