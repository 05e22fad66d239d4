"""Contract model of pycddlib: exact double description by enumeration of
facet/extreme-ray candidates, with symbolic signs decided by path forks."""
import itertools
import types

import numpy as np

from . import core, arr
from .core import Sym, Unsupported, ZERO, ONE, is_special
from .arr import cv, base


class RepType:
    UNSPECIFIED = 0
    INEQUALITY = 1
    GENERATOR = 2


def _dot(u, v):
    s = ZERO
    for a, b in zip(u, v):
        s = s + a * b
    return s


def _sgn(s):
    s = cv(s)
    if not s.num:
        return 0
    if bool(s > 0):
        return 1
    return -1 if bool(s < 0) else 0


def _iszero(s):
    s = cv(s)
    return not s.num or bool(s == 0)


def _rank_basis(rows, D):
    """indices of a maximal independent subset (forks on minors)."""
    if len(rows) >= D and D > 1:
        # usual case: full rank
        R = np.array(rows, dtype=object).reshape(len(rows), D)
        for n, c in enumerate(itertools.combinations(range(len(rows)), D)):
            if n > 200:
                break
            if not _iszero(arr.det(R[list(c), :])):
                return list(c)
    idx = []
    for i in range(len(rows)):
        cand = [rows[j] for j in idx] + [rows[i]]
        k = len(cand)
        if k > D:
            break
        M = np.array(cand, dtype=object)
        ind = False
        for c in itertools.combinations(range(D), k):
            if not _iszero(arr.det(M[:, list(c)])):
                ind = True
                break
        if ind:
            idx.append(i)
            if len(idx) == D:
                break
    return idx


def _gcross(rows, D):
    """vector orthogonal to D-1 rows."""
    M = np.array(rows, dtype=object).reshape(len(rows), D)
    out = []
    for j in range(D):
        m = np.delete(M, j, 1)
        d = arr.det(m)
        out.append(d if j % 2 == 0 else -d)
    return out


def _null(rows, D):
    """basis of the orthogonal complement of independent rows (exact, via cofactors)."""
    rows = list(rows)
    basis = []
    # complete with unit vectors
    full = list(rows)
    extra = []
    for e in range(D):
        u = [ONE if k == e else ZERO for k in range(D)]
        t = _rank_basis(full + [u], D)
        if len(t) > len(full):
            full.append(u)
            extra.append(u)
        if len(full) == D:
            break
    # Gram-Schmidt-free: for each extra vector, cross of the others
    for u in extra:
        others = rows + [x for x in extra if x is not u]
        basis.append(_gcross(others, D))
    # make them mutually consistent only as a spanning set
    return basis


def _dual(gens, lins, D):
    """Facets (rows y with y.g >= 0) and equalities of cone(gens) + span(lins)."""
    rows = list(gens) + list(lins)
    bi = _rank_basis(rows, D)
    r = len(bi)
    eqs = _null([rows[i] for i in bi], D) if r < D else []
    facets = []
    seen = []
    nl = len(lins)
    if r - 1 < 0:
        return [], eqs, []
    lb = _rank_basis(lins, D) if lins else []
    lbase = [lins[i] for i in lb]
    need = r - 1 - len(lbase)
    if need < 0:
        return [], eqs, []
    for sub in itertools.combinations(range(len(gens)), need):
        ss = set(sub)
        if any(ss <= inc for inc in seen):
            continue
        y = _gcross([gens[i] for i in sub] + lbase + eqs, D)
        pos = neg = False
        inc = set()
        for i, g in enumerate(gens):
            s = 0 if i in ss else _sgn(_dot(y, g))
            if s == 0:
                inc.add(i)
            elif s > 0:
                pos = True
            else:
                neg = True
            if pos and neg:
                break
        if pos and neg:
            continue
        if not pos and not neg:
            continue
        if neg:
            y = [-c for c in y]
        seen.append(inc)
        facets.append(y)
    return facets, eqs, seen


class Matrix:
    def __init__(self, rows, linear=False, number_type=None):
        rows = [[cv(x) for x in r] for r in rows]
        for r in rows:
            for x in r:
                if is_special(x):
                    raise ValueError("non-finite entry")
        self.rows = rows
        self.lin_set = frozenset(range(len(rows))) if linear else frozenset()
        self.rep_type = RepType.UNSPECIFIED

    @property
    def row_size(self):
        return len(self.rows)

    @property
    def col_size(self):
        return len(self.rows[0]) if self.rows else 0

    def __len__(self):
        return len(self.rows)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [tuple(r) for r in self.rows[i]]
        return tuple(self.rows[i])

    def __iter__(self):
        return iter([tuple(r) for r in self.rows])

    def copy(self):
        m = Matrix(self.rows)
        m.lin_set = self.lin_set
        m.rep_type = self.rep_type
        return m

    def extend(self, rows, linear=False):
        if isinstance(rows, Matrix):
            rows = rows.rows
        n = len(self.rows)
        rows = [[cv(x) for x in r] for r in rows]
        self.rows = self.rows + rows
        if linear:
            self.lin_set = frozenset(self.lin_set | set(range(n, n + len(rows))))

    def canonicalize(self):
        D = self.col_size
        if self.rep_type == RepType.GENERATOR:
            lins = [self.rows[i] for i in sorted(self.lin_set)]
            idx = [i for i in range(len(self.rows)) if i not in self.lin_set]
            gens = [self.rows[i] for i in idx]
            if not any(not _iszero(g[0]) for g in gens):
                extra = [[ONE] + [ZERO] * (D - 1)]
            else:
                extra = []
            facets, eqs, seen = _dual(gens + extra, lins, D)
            keep = _extreme(len(gens), facets, gens)
            # rays whose opposite is generated too are lines
            lin = [k for k in range(len(gens)) if all(k in inc for inc in seen) and facets]
            if lin:
                base_ = _rank_basis([gens[k] for k in lin], D)
                lin_keep = [lin[b] for b in base_]
                keep = [k for k in keep if k not in lin]
                self.rows = [gens[k] for k in lin_keep] + [gens[k] for k in keep]
                self.lin_set = frozenset(range(len(lin_keep)))
            else:
                self.rows = lins + [gens[k] for k in keep]
                self.lin_set = frozenset(range(len(lins)))
        else:
            eqr = [self.rows[i] for i in sorted(self.lin_set)]
            ineq = [self.rows[i] for i in range(len(self.rows)) if i not in self.lin_set]
            t = [ONE] + [ZERO] * (D - 1)
            gens, lines, _ = _dual(ineq + [t], eqr, D)
            if not any(not _iszero(g[0]) for g in gens):
                return  # empty set: left as is
            inc = []
            for f in ineq:
                inc.append(frozenset(i for i, g in enumerate(gens) if _sgn(_dot(f, g)) == 0))
            allg = frozenset(range(len(gens)))
            lin = [i for i in range(len(ineq)) if inc[i] == allg]
            lb = _rank_basis(eqr + [ineq[i] for i in lin], D)
            linrows = [(eqr + [ineq[i] for i in lin])[b] for b in lb]
            keep = []
            cand = [i for i in range(len(ineq)) if i not in lin]
            tinc = frozenset(i for i, g in enumerate(gens) if _iszero(g[0]))
            for a in cand:
                red = False
                for b in cand:
                    if a == b:
                        continue
                    if inc[a] < inc[b] or (inc[a] == inc[b] and b < a):
                        red = True
                        break
                if inc[a] <= tinc and (not inc[a] or inc[a] < tinc or True) and not _facet_dim(inc[a], gens, D, len(linrows)):
                    red = True
                if not red:
                    keep.append(a)
            self.rows = linrows + [ineq[a] for a in keep]
            self.lin_set = frozenset(range(len(linrows)))


def _facet_dim(inc, gens, D, neq):
    pts = [gens[i] for i in inc]
    if not any(not _iszero(g[0]) for g in pts):
        return False
    return True


def _extreme(n, facets, gens):
    incs = []
    for g in gens:
        incs.append(frozenset(k for k, f in enumerate(facets) if _sgn(_dot(f, g)) == 0))
    keep = []
    for a in range(n):
        if all(_iszero(x) for x in gens[a]):
            continue
        red = False
        for b in range(n):
            if a == b:
                continue
            if incs[a] < incs[b] or (incs[a] == incs[b] and b < a):
                red = True
                break
        if not red:
            keep.append(a)
    return keep


class Polyhedron:
    def __init__(self, mat):
        if mat.rep_type == RepType.UNSPECIFIED:
            raise ValueError("matrix rep_type must be set")
        self.mat = mat.copy()
        self.rep_type = mat.rep_type

    def get_inequalities(self):
        m = self.mat
        if m.rep_type == RepType.INEQUALITY:
            return m.copy()
        D = m.col_size
        lins = [m.rows[i] for i in sorted(m.lin_set)]
        gens = [m.rows[i] for i in range(len(m.rows)) if i not in m.lin_set]
        if not any(not _iszero(g[0]) for g in gens):
            gens = gens + [[ONE] + [ZERO] * (D - 1)]
        facets, eqs, _ = _dual(gens, lins, D)
        if any(not (cv(g[0]).isconst() and cv(g[0]).num) for g in gens) or lins:
            facets = [f for f in facets if not all(_iszero(x) for x in f[1:])]
        out = Matrix(facets + eqs) if facets or eqs else Matrix([])
        out.lin_set = frozenset(range(len(facets), len(facets) + len(eqs)))
        out.rep_type = RepType.INEQUALITY
        return out

    def get_generators(self):
        m = self.mat
        if m.rep_type == RepType.GENERATOR:
            return m.copy()
        D = m.col_size
        eqr = [m.rows[i] for i in sorted(m.lin_set)]
        ineq = [m.rows[i] for i in range(len(m.rows)) if i not in m.lin_set]
        t = [ONE] + [ZERO] * (D - 1)
        gens, lines, _ = _dual(ineq + [t], eqr, D)
        rows = []
        anyv = False
        for g in gens:
            if _iszero(g[0]):
                rows.append([ZERO] + g[1:])
            else:
                anyv = True
                rows.append([ONE] + [x / g[0] for x in g[1:]])
        if not gens and not anyv:
            # the whole affine subspace (or a single point when D-1 equalities)
            pass
        if not anyv:
            # maybe a single point / subspace: the dual has no facet when rank 1
            if not gens and len(lines) >= 1:
                vs = [l for l in lines if not _iszero(l[0])]
                if vs and len(lines) == 1:
                    l = vs[0]
                    rows = [[ONE] + [x / l[0] for x in l[1:]]]
                    out = Matrix(rows)
                    out.rep_type = RepType.GENERATOR
                    return out
            out = Matrix([])
            out.rep_type = RepType.GENERATOR
            return out
        if all(_iszero(r[0]) for r in m.rows):
            # homogeneous system: cddlib lists rays and lines only
            rays = [r for r in rows if not (cv(r[0]).isconst() and cv(r[0]).num)]
            if rays or lines:
                rows = rays
        n = len(rows)
        rows = rows + [list(l) for l in lines]
        out = Matrix(rows)
        out.lin_set = frozenset(range(n, len(rows)))
        out.rep_type = RepType.GENERATOR
        return out


def make_cdd():
    m = types.ModuleType("cdd")
    m.Matrix = Matrix
    m.Polyhedron = Polyhedron
    m.RepType = RepType
    m.__version__ = "2.1.7"
    return m
