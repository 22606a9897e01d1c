"""Reference oracles in float64: quadratic programs with interval right hand sides, finite differences."""
from __future__ import annotations

import itertools

import numpy as np
import quadprog
from scipy.optimize import linprog

from rtav.core import HarnessError, Violation, check

F32 = 1.2e-7  # machine epsilon of the code under test


def fd_grad(fun, x, h=1e-6):
    """central difference gradient; fun: R^n -> R or R^k"""
    x = np.asarray(x, float)
    out = []
    for i in range(x.size):
        step = h * max(1.0, abs(x[i]))
        e = np.zeros_like(x)
        e[i] = step
        out.append((np.asarray(fun(x + e), float) - np.asarray(fun(x - e), float)) / (2 * step))
    return np.stack(out, axis=-1)


def distinct(C, b):
    """indices of rows that differ up to scale: quadprog can cycle for ever between equal rows"""
    nrm = np.linalg.norm(C, axis=1, keepdims=True)
    rows = np.column_stack((C, b)) / np.where(nrm > 0, nrm, 1.0)
    _, idx, group = np.unique(np.round(rows, 11), axis=0, return_index=True, return_inverse=True)
    order = np.argsort(idx)
    place = np.empty(len(order), int)
    place[order] = np.arange(len(order))
    return idx[order], place[np.ravel(group)]


class QP:
    """min 1/2|u-ud|^2 + sum_j 1/2 w_j s_j^2  s.t. for every row i:  c_i.u - s_{slack(i)} >= b_i (known up to eps_i)

    rows: list of (c, b, eps, slack index or None)
    """

    def __init__(self, ud, low, high, slack_weights=()):
        self.ud = np.asarray(ud, float)
        self.m = self.ud.size
        self.w = np.asarray(slack_weights, float)
        self.rows = []
        self.names = []
        fin = np.concatenate((np.asarray(low, float), np.asarray(high, float)))
        self.bounded = bool(np.all(np.isfinite(fin)))
        self.uscale = 1 + float(np.max(np.abs(np.concatenate((fin[np.isfinite(fin)], self.ud)))))
        for i in range(self.m):
            e = np.zeros(self.m)
            e[i] = 1.0
            if np.isfinite(low[i]):
                self.add(e, low[i], 2e-6 * (1 + abs(low[i])), None, f"u{i + 1}_min")
            if np.isfinite(high[i]):
                self.add(-e, -high[i], 2e-6 * (1 + abs(high[i])), None, f"u{i + 1}_max")

    def add(self, c, b, eps, slack=None, name=""):
        c = np.asarray(c, float)
        if not (np.all(np.isfinite(c)) and np.isfinite(b) and np.isfinite(eps)):
            raise HarnessError(f"reference row not finite: {name} {c} {b} {eps}")
        self.rows.append((c, float(b), float(eps), slack))
        self.names.append(name)

    def _mats(self, shift):
        k = self.w.size
        C = np.zeros((len(self.rows), self.m + k))
        b = np.zeros(len(self.rows))
        for i, (c, bi, e, s) in enumerate(self.rows):
            C[i, : self.m] = c
            if s is not None:
                C[i, self.m + s] = -1.0
            b[i] = bi + shift * e
        return C, b

    def slacks(self, u, shift):
        """least slack for the control u (rows shifted by shift*eps)"""
        s = np.zeros(self.w.size)
        for c, b, e, j in self.rows:
            if j is not None:
                s[j] = min(s[j], float(c @ u - (b + shift * e)))
        return s

    def cost(self, u, shift):
        s = self.slacks(u, shift)
        return 0.5 * float((u - self.ud) @ (u - self.ud)) + 0.5 * float(self.w @ (s * s))

    def hard_residual(self, u, shift):
        """least margin over the hard rows, (value, name)"""
        best = (np.inf, "")
        for (c, b, e, j), n in zip(self.rows, self.names):
            if j is None:
                r = float(c @ u - (b + shift * e))
                if r < best[0]:
                    best = (r, n)
        return best

    def solve(self, shift):
        """optimal u of the problem with shifted rows, or None (no solution found)"""
        C, b = self._mats(shift)
        keep = []
        for i in range(len(b)):
            nrm = np.linalg.norm(C[i])
            if nrm < 1e-13:
                if b[i] > 0:
                    return None
                continue
            C[i] /= nrm
            b[i] /= nrm
            keep.append(i)
        C, b = C[keep], b[keep]
        if len(b):
            keep, _ = distinct(C, b)
            C, b = C[keep], b[keep]
        G = np.diag(np.concatenate((np.ones(self.m), self.w)))
        a = np.concatenate((self.ud, np.zeros(self.w.size)))
        if len(b) == 0:
            return self.ud.copy()
        try:
            sol = quadprog.solve_qp(G, a, C.T.copy(), b.copy(), 0)[0]
        except ValueError:
            return None
        if np.min(C @ sol - b) < -1e-7 * (1 + np.max(np.abs(sol))):
            return None
        return sol[: self.m]

    def infeasible_by(self, shift):
        """maximal margin t of the hard rows, with normalised rows; negative means infeasible

        The coefficients of a row are known up to a small error too. With bounded controls eps covers it; otherwise every orthant is
        tried with the most favourable coefficients (a problem with a solution very far away is infeasible only up to that error).
        """
        if self.bounded:
            return self._margin(shift, None)
        return max(self._margin(shift, np.array(s)) for s in itertools.product((-1.0, 1.0), repeat=self.m))

    def _margin(self, shift, sign):
        A, ub = [], []
        for c, b, e, j in self.rows:
            if j is not None:
                continue
            b = b + shift * e
            if sign is not None and np.count_nonzero(c) > 0:
                c = c + 3e-6 * max(1.0, float(np.max(np.abs(c)))) * sign
            nrm = np.linalg.norm(c)
            if nrm < 1e-13:
                if b > 1e-9:
                    return -np.inf
                continue
            A.append(np.concatenate((-c / nrm, [1.0])))
            ub.append(-b / nrm)
        if not A:
            return np.inf
        box = [(None, None)] * self.m if sign is None else [(0, None) if s > 0 else (None, 0) for s in sign]
        r = linprog(np.concatenate((np.zeros(self.m), [-1.0])), A_ub=np.array(A), b_ub=np.array(ub), bounds=box + [(None, 1.0)])
        if r.status != 0:
            raise HarnessError(f"linprog {r.message}")
        return float(-r.fun)

    def verdict(self):
        """'feasible' (even when every row is tightened), 'infeasible' (even when relaxed) or 'ambiguous'"""
        v = self.solve(+1)
        if v is not None:
            # the error of a row grows with the control: solutions far outside the scale for which eps was computed decide nothing
            return ("feasible", v) if np.max(np.abs(v)) < 20 * self.uscale else ("ambiguous", None)
        if self.infeasible_by(-1) < -1e-6:
            return "infeasible", None
        return "ambiguous", None

    def check_solution(self, u, what=""):
        """u has to satisfy the (relaxed) rows and to be no farther from ud than the optimum of the tightened problem"""
        u = np.asarray(u, float)
        res, name = self.hard_residual(u, -1)
        tol = 3e-6 * (1 + float(np.max(np.abs(u))))
        scale = max([1.0] + [float(np.linalg.norm(c)) for c, _, _, j in self.rows if j is None])
        check(res >= -tol * scale, lambda: f"{what}control {u.tolist()} violates row {name} by {-res} (desired {self.ud.tolist()})")
        v = self.solve(+1)
        if v is None:
            return False
        fu, fv = self.cost(u, -1), self.cost(v, +1)
        tolf = 1e-5 * (1 + np.linalg.norm(v - self.ud)) * (1 + float(np.max(np.abs(self.ud))))
        check(
            fu <= fv + tolf * (1e-3 + np.sqrt(2 * fv)) + tolf * tolf,
            lambda: f"{what}control {u.tolist()} (cost {fu}) is not minimal: {v.tolist()} (cost {fv}) is feasible; desired {self.ud.tolist()}",
        )
        return True


def close(a, b, atol=1e-5, rtol=1e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def same(a, b):
    """bitwise equal arrays (nan equal)"""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


__all__ = ["QP", "fd_grad", "close", "same", "F32", "Violation"]
