"""Deciding equalities between piecewise-polynomial terms.

Z3's nonlinear solver is slow on sums of products of case distinctions.  Such goals are first split: the difference of
both sides is expanded into monomials, grouped by the case distinctions they contain, and each group is shown to be
zero by splitting on its conditions (infeasible cases, decided by Z3, are dropped) and comparing polynomial normal
forms.  Only successes are used; everything else goes to the solver as it is."""
from __future__ import annotations

import time

import z3

ITE = z3.Z3_OP_ITE
CMP = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ)


def _som(e):
    return z3.simplify(e, som=True, som_blowup=1 << 20)


def _walk(e, seen):
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen[i] = t
        stack.extend(t.children())


def has_ite(e):
    seen = {}
    _walk(e, seen)
    return any(z3.is_app(t) and t.decl().kind() == ITE for t in seen.values())


def nonlinear(e):
    seen = {}
    _walk(e, seen)
    for t in seen.values():
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL and sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in t.children()) > 1:
                return True
            if k in (z3.Z3_OP_POWER, z3.Z3_OP_DIV) and not z3.is_rational_value(t.children()[1]):
                return True
            if k == z3.Z3_OP_POWER:
                return True
            if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
                return True
    return False


def _conds(e):
    """conditions without nested case distinctions"""
    seen = {}
    _walk(e, seen)
    out = {}
    for t in seen.values():
        if z3.is_app(t) and t.decl().kind() == ITE:
            c = t.children()[0]
            s2 = {}
            _walk(c, s2)
            for x in s2.values():
                if z3.is_app(x) and x.sort() == z3.BoolSort() and not has_ite(x) and \
                        (x.decl().kind() in CMP or (x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED)):
                    out[x.get_id()] = x
    return list(out.values())


def _key(c):
    """canonical identity of the form a comparison is about"""
    if c.num_args() == 0:
        return c.sexpr()
    a, b = c.children()
    if a.sort() not in (z3.RealSort(), z3.IntSort()):
        return c.sexpr()
    if z3.is_int(a):
        return _som(a - b).sexpr()
    d = _som(a - b)
    terms = d.children() if d.decl().kind() == z3.Z3_OP_ADD else [d]
    co = []
    for t in terms:
        if z3.is_rational_value(t):
            continue
        if t.decl().kind() == z3.Z3_OP_MUL and z3.is_rational_value(t.children()[0]):
            f = t.children()[0].as_fraction()
            co.append((z3.Product(t.children()[1:]).sexpr() if len(t.children()) > 2 else t.children()[1].sexpr(), f))
        else:
            co.append((t.sexpr(), 1))
    if not co:
        return ""
    co.sort()
    f0 = co[0][1]
    return str([(n, str(f / f0)) for n, f in co])


class Prover:
    def __init__(self, cons, budget):
        self.t_end = time.time() + budget
        self.solver = z3.Solver()
        self.solver.set("timeout", 500)
        for c in cons:
            if not nonlinear(c):
                self.solver.add(c)

    def feasible(self, c):
        return self.solver.check(c) != z3.unsat

    def zero(self, e, depth=0):
        if time.time() > self.t_end or depth > 60:
            return False
        e = _som(e)
        if z3.is_rational_value(e):
            return e.as_fraction() == 0
        cs = _conds(e)
        if not cs:
            return self.solver.check(e != 0) == z3.unsat
        c = min(cs, key=lambda x: len(x.sexpr()))
        for val in (True, False):
            lit = c if val else z3.Not(c)
            self.solver.push()
            try:
                self.solver.add(lit)
                if self.solver.check() == z3.unsat:
                    continue
                sub = [(x, z3.BoolVal(val)) for x in (c,)]
                if not self.zero(z3.substitute(e, *sub), depth + 1):
                    return False
            finally:
                self.solver.pop()
        return True

    def equal(self, a, b):
        d = _som(a - b)
        if z3.is_rational_value(d):
            return d.as_fraction() == 0
        terms = d.children() if d.decl().kind() == z3.Z3_OP_ADD else [d]
        parent = {}

        def find(x):
            while parent[x] != x:
                x = parent[x]
            return x
        info = []
        for t in terms:
            ks = sorted({_key(c) for c in _conds(t)})
            for k in ks:
                parent.setdefault(k, k)
            for k in ks[1:]:
                ra, rb = find(ks[0]), find(k)
                if ra != rb:
                    parent[ra] = rb
            info.append((t, ks[0] if ks else None))
        groups = {}
        for t, k in info:
            groups.setdefault(find(k) if k is not None else None, []).append(t)
        if len(groups) > 1 and all(self.zero(z3.Sum(g)) for g in groups.values()):
            return True
        return self.zero(d)

    def goal(self, g):
        """True if g was proved"""
        if z3.is_true(g):
            return True
        k = g.decl().kind() if z3.is_app(g) else None
        if k == z3.Z3_OP_AND:
            return all(self.goal(c) for c in g.children())
        if k == z3.Z3_OP_IMPLIES:
            return self._under([g.children()[0]], g.children()[1])
        if k == z3.Z3_OP_OR:
            eqs = [c for c in g.children() if c.decl().kind() == z3.Z3_OP_EQ and c.children()[0].sort() == z3.RealSort()]
            for e in eqs:
                if has_ite(e) or len(eqs) == 1:
                    return self._under([z3.Not(c) for c in g.children() if not c.eq(e)], e)
            return False
        if k == z3.Z3_OP_EQ and g.children()[0].sort() == z3.RealSort():
            return self.equal(*g.children())
        return False

    def _under(self, hyps, g):
        self.solver.push()
        try:
            for h in hyps:
                for c in (h.children() if h.decl().kind() == z3.Z3_OP_AND else [h]):
                    if not nonlinear(c):
                        self.solver.add(c)
            return self.goal(g)
        finally:
            self.solver.pop()


def shapely(c):
    return has_ite(c) and nonlinear(c)
