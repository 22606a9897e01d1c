"""Executable reference model of the switching (simplex) filters, float64."""
from __future__ import annotations

import numpy as np

from rtav import systems as S

TOLS = 1e-5


def n_steps(window, dt):
    """number of whole steps in the window (decimal arithmetic, so that 0.3/0.1 is 3)"""
    from fractions import Fraction

    return int(Fraction(str(window)) / Fraction(str(dt)))


class SimplexModel:
    """latch, controller state and switching decision"""

    def __init__(self, spec, case):
        self.spec, self.case = spec, case
        self.ref = S.Ref(spec, case)
        self.cons = [dict(c) for c in case["cons"]]
        self.latch_time = spec.get("latch_time", 0)
        self.reset()

    def reset(self):
        self.enable = True
        self.intervening = False
        self.elapsed = 0.0
        self.s = self.ref.s0()

    def trajectory(self, x, dt, u, dtype=np.float64):
        r = self.ref
        x = np.asarray(x, dtype)
        x = r.step(x, dt, u).astype(dtype)
        out = [x]
        if self.spec["kind"] == "isimplex":
            s = None if self.s is None else self.s.astype(dtype)
            for _ in range(n_steps(self.spec["backup_window"], dt)):
                ub = r.clip(r.ub(x, s)).astype(dtype)
                s = r.s_next(x, s, dt)
                s = None if s is None else s.astype(dtype)
                x = r.step(x, dt, ub).astype(dtype)
                out.append(x)
        return out

    def least(self, x, dt, u):
        """least constraint value over the checked states, its uncertainty, and the index of the state"""
        t64 = self.trajectory(x, dt, u)
        t32 = self.trajectory(x, dt, u, np.float32)
        best, where, unc = np.inf, -1, 0.0
        unclear = False
        for i, c in enumerate(self.spec["constraints"]):
            if not self.cons[i].get("on", True):
                continue
            par = S.case_params(dict(self.case, cons=self.cons), i, self.ref.n)
            b = c.get("bias", 0)
            if self.cons[i].get("edge") == "zero" and not b:
                continue  # exactly 0 everywhere: satisfied
            for k, (a, a32) in enumerate(zip(t64, t32)):
                h = S.h_val(par, a) + b
                e = TOLS * (S.h_abs(par, a) + abs(b) + 0.01) + 20 * abs(S.h_val(par, a) - S.h_val(par, a32.astype(float)))
                if not np.isfinite(e):
                    return np.nan, np.inf, -1
                if abs(h) < e:
                    unclear = True
                if h < best:
                    best, where, unc = h, k, e
        if unclear and not best < -unc:
            return best, np.inf, where
        return best, unc, where

    def call(self, x, dt, ud):
        """returns (expected control, tolerance or None when the decision is ambiguous)"""
        r = self.ref
        ud = np.asarray(ud, float)
        x = np.asarray(x, float)
        if not self.enable:
            self.intervening = False
            self.why = "disabled"
            return ud, 0.0
        u = r.clip(ud)
        if self.intervening and self.elapsed < self.latch_time:
            self.elapsed += dt
            self.why = "latched"
            return self.backup(x, dt)
        h, e, where = self.least(x, dt, u)
        if not abs(h) > e:
            if not np.isinf(h):
                return None, None
        self.h, self.where = h, where
        self.intervening = bool(h < 0)
        if not self.intervening:
            self.why = "pass"
            return u, 1e-6 * (1 + np.max(np.abs(u)))
        self.why = "switch"
        self.elapsed = 0.0
        return self.backup(x, dt)

    def backup(self, x, dt):
        r = self.ref
        ub = r.clip(r.ub(x, self.s))
        self.s = r.s_next(x, self.s, dt)
        return ub, 2e-5 * (1 + np.max(np.abs(ub)) + np.sum(np.abs(r.K) @ np.abs(x)))
