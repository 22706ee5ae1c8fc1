"""Stand-in for NLopt, which is not installed: the part of its documented interface
needed to run LN_NELDERMEAD, with SciPy's Nelder-Mead doing the work.

As in NLopt, an optimizer can be copied, keeps its settings between runs, raises
ValueError when started outside of its bounds, and its last result can be asked for.
"""

import numpy as np
from scipy.optimize import minimize


class opt:
    def __init__(self, name, n=None):
        if isinstance(name, opt):
            self.__dict__.update(name.__dict__)
            self.lo, self.hi = self.lo.copy(), self.hi.copy()
            self.last = None
            return
        if name != "LN_NELDERMEAD":
            raise ValueError(name)
        self.n = n
        self.lo, self.hi = np.full(n, -np.inf), np.full(n, np.inf)
        self.rtol, self.step, self.maxeval, self.fn = 0.0, None, 0, None
        self.last = None

    def _vector(self, v):
        v = np.array(v, float)
        if v.shape != (self.n,):
            raise ValueError(f"{v.shape}, not ({self.n},)")
        return v

    def set_lower_bounds(self, v):
        self.lo = self._vector(v)

    def set_upper_bounds(self, v):
        self.hi = self._vector(v)

    def set_ftol_rel(self, v):
        self.rtol = float(v)

    def get_ftol_rel(self):
        return self.rtol

    def set_initial_step(self, v):
        self.step = self._vector(v)

    def set_maxeval(self, v):
        self.maxeval = int(v)

    def set_min_objective(self, fn):
        self.fn = fn

    def optimize(self, x0):
        x0 = self._vector(x0)
        if (x0 < self.lo).any() or (x0 > self.hi).any():
            raise ValueError("nlopt invalid argument")
        step = self.step if self.step is not None else np.full(self.n, 0.02)
        simplex = np.vstack([x0] + [x0 + step * (np.arange(self.n) == i)
                                    for i in range(self.n)])
        simplex = np.clip(simplex, self.lo, self.hi)
        grad = np.empty(0)
        self.last = minimize(
            lambda x: self.fn(x, grad), x0, method="Nelder-Mead",
            bounds=list(zip(self.lo, self.hi)),
            options=dict(initial_simplex=simplex, fatol=self.rtol, xatol=1e-6,
                         maxfev=self.maxeval or 400),
        )
        return self.last.x

    def last_optimum_value(self):
        return float(self.last.fun)

    def get_numevals(self):
        return int(self.last.nfev)
