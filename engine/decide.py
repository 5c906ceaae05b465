"""Equality of normalised terms.

Two terms are compared by walking both decision structures at once: an undecided condition common
to the walk is fixed to true, then to false (branches whose path conditions are contradictory by
linear arithmetic are pruned), until both sides are condition-free; the leaves are then compared as
polynomials / constructor terms, congruently.  Binder terms (sequences, sums, searches) are compared
by comparing their bodies at a fresh in-range index.
"""
import time

from terms import *
import terms as TM
from fractions import Fraction as Q


class Budget(Exception):
    pass


STATS = {'splits': 0, 'leaves': 0, 'entail': 0}
LIMIT = [200000]
DEADLINE = [None]


# ------------------------------------------------------------------ linear arithmetic
def _lin(p):
    """poly -> (dict mono->coef, const)"""
    d = {}
    c = Q(0)
    for m, k in p.args:
        if m == ():
            c = k
        else:
            d[m] = k
    return d, c


def fm_infeasible(cons):
    """cons: list of (dict, const, strict) meaning dict.x + const >= 0 (or > 0)."""
    cons = list(cons)
    seen = set()

    def norm(c):
        d, k, s = c
        if not d:
            return None, (k < 0 or (s and k <= 0))
        f = abs(next(iter(sorted(d.items(), key=lambda kv: _mkey(kv[0]))))[1])
        it = tuple(sorted(((m, v / f) for m, v in d.items()), key=lambda kv: _mkey(kv[0])))
        return (it, k / f, s), False
    work = {}
    for c in cons:
        n, bad = norm(c)
        if bad:
            return True
        if n is None:
            continue
        key = n[0]
        o = work.get(key)
        if o is None or (n[1], not n[2]) < (o[0], not o[1]):
            work[key] = (n[1], n[2])
    for _ in range(60):
        # pick variable minimising pos*neg
        cnt = {}
        for it in work:
            for m, v in it:
                p, q = cnt.get(m, (0, 0))
                if v > 0:
                    cnt[m] = (p + 1, q)
                else:
                    cnt[m] = (p, q + 1)
        if not cnt:
            return False
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], _mkey(x)))
        pos, negs, rest = [], [], {}
        for it, (k, s) in work.items():
            co = 0
            for mm, v in it:
                if mm == m:
                    co = v
            if co > 0:
                pos.append((it, k, s, co))
            elif co < 0:
                negs.append((it, k, s, co))
            else:
                rest[it] = (k, s)
        if len(pos) * len(negs) + len(rest) > 600:
            return False
        for it1, k1, s1, c1 in pos:
            for it2, k2, s2, c2 in negs:
                d = {}
                for mm, v in it1:
                    d[mm] = d.get(mm, 0) + v * (-c2)
                for mm, v in it2:
                    d[mm] = d.get(mm, 0) + v * c1
                d = {mm: v for mm, v in d.items() if v != 0}
                n, bad = norm((d, k1 * (-c2) + k2 * c1, s1 or s2))
                if bad:
                    return True
                if n is None:
                    continue
                o = rest.get(n[0])
                if o is None or (n[1], not n[2]) < (o[0], not o[1]):
                    rest[n[0]] = (n[1], n[2])
        work = rest
    return False


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def permuted(s):
    """n when s is a reordering of 0 .. n-1"""
    while s.op == 'app' and s.args[0] in ('sorted',) and type(s.args[1]) is T:
        s = s.args[1]
        if s.op == 'seq':
            j = atom(PROBE)
            if TM.app(s.args[1], j) is j:
                return s.args[0]
    return None


PROBE = fresh('i', 'probe')
_AX = {}


def axioms(mono):
    """linear facts about a monomial, as polys known >= 0 (or > 0)"""
    r = _AX.get(mono)
    if r is not None:
        return r
    out = []
    mp = TM._poly({mono: Q(1)})
    if all(e % 2 == 0 for _a, e in mono):
        out.append((mp, False))
    elif all(e % 2 == 0 or a.op in ('sqrt', 'len', 'rows', 'cols', 'exp', 'inv_sq') for a, e in mono):
        out.append((mp, False))
    if len(mono) == 1 and mono[0][1] == 1:
        a = mono[0][0]
        if a.op in ('len', 'rows', 'cols', 'sqrt', 'lb', 'abs'):
            out.append((mp, False))
        elif a.op == 'exp':
            out.append((mp, True))
        elif a.op == 'first':
            out.append((mp, False))
            out.append((sub(a.args[0], mp), False))
        elif a.op == 'firstinf':
            out.append((mp, False))
        elif a.op == 'trunc':
            p = a.args[0]
            out.append((add(sub(mp, p), ONE), True))
            out.append((add(sub(p, mp), ONE), True))
        elif a.op == 'floor':
            p = a.args[0]
            out.append((add(sub(mp, p), ONE), True))
            out.append((sub(p, mp), False))
        elif a.op in ('sin', 'cos'):
            out.append((sub(ONE, mp), False))
            out.append((add(ONE, mp), False))
        elif a.op == 'sum':
            # sums of things bounded in [0,1] (counts)
            body = a.args[1].args[1]
            b = as_atom(body)
            if b is not None and b.op == 'ite' and const(b.args[1]) is not None and \
                    const(b.args[2]) is not None:
                lo = min(const(b.args[1]), const(b.args[2]))
                hi = max(const(b.args[1]), const(b.args[2]))
                if lo >= 0:
                    out.append((mp, False))
                out.append((sub(scale(a.args[0], hi), mp), False))
                if lo != 0:
                    out.append((sub(mp, scale(a.args[0], lo)), False))
        elif a.op == 'lbidx':
            pass
        elif a.op == 'z' and a.args[0].op == 'var' and str(a.args[0].args[0]).startswith('u:'):
            out.append((mp, False))
    r = tuple(out)
    _AX[mono] = r
    return r


SOLVABLE = ('rows', 'cols', 'len', 'z', 'r', 'rf', 'var')


class Ctx:
    __slots__ = ('lits', 'cons', 'diseq', 'clauses', 'memo', 'cache', 'trail', 'bad', 'eqsub')

    def __init__(self):
        self.lits = {}
        self.cons = []      # (poly, strict)
        self.diseq = []
        self.clauses = []
        self.memo = {}
        self.cache = {}
        self.trail = ()
        self.bad = None
        self.eqsub = {}

    def copy(self):
        c = Ctx()
        c.lits = dict(self.lits)
        c.cons = list(self.cons)
        c.diseq = list(self.diseq)
        c.clauses = list(self.clauses)
        c.trail = self.trail
        c.bad = self.bad
        c.eqsub = dict(self.eqsub)
        return c

    # -- extension
    def add(self, t, val=True):
        """a new context in which t has the given truth value"""
        c = self.copy()
        c.trail = c.trail + ((t, val),)
        c._assume(t, val)
        if not c.bad:
            c._check()
        c._units()
        if c.diseq and not c.bad:
            c._tighten()
        return c

    def _tighten(self):
        """x >= 0 and x != 0 give x >= 1 for whole numbers"""
        changed = True
        while changed and not self.bad:
            changed = False
            for d in list(self.diseq):
                if not is_int(d) or len(d.args) > 3:
                    continue
                nd = neg(d)
                if self._infeasible([(sub(nd, ONE), False)]):
                    self.cons.append((sub(d, ONE), False))
                elif self._infeasible([(sub(d, ONE), False)]):
                    self.cons.append((sub(nd, ONE), False))
                else:
                    continue
                self.diseq = [x for x in self.diseq if x is not d]
                self.cache = {}
                self.memo = {}
                changed = True
                self._check()
                if self.bad:
                    return

    def _assume(self, t, val):
        if t.op == 'not':
            t, val = t.args[0], not val
        if t is TRUE or t is FALSE:
            if (t is TRUE) != val:
                self.bad = True
            return
        if t.op == 'and' and val or t.op == 'or' and not val:
            for x in t.args:
                self._assume(x, val)
            return
        if t.op in ('and', 'or'):
            self.clauses.append(t if val else not_(t))
            return
        o = self.lits.get(t)
        if o is not None:
            if o != val:
                self.bad = True
            return
        self.lits[t] = val
        if t.op == 'ge':
            self.cons.append((t.args[0], False) if val else (neg(t.args[0]), True))
        elif t.op == 'gt':
            self.cons.append((t.args[0], True) if val else (neg(t.args[0]), False))
        elif t.op == 'eq':
            if val:
                self.cons.append((t.args[0], False))
                self.cons.append((neg(t.args[0]), False))
                self._solve_eq(t.args[0])
            else:
                self.diseq.append(t.args[0])
        if t.op == 'ge' and not val:
            q = add(t.args[0], ONE)
            for m, c in q.args if q.op == 'poly' else ():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'first' and c in (1, -1) and \
                        sub(m[0][0].args[0], atom(m[0][0])) is q:
                    self._solve_eq(q)   # a search that stops nowhere ends at its end
        # bounds that meet
        if t.op in ('ge', 'gt') and val == (t.op == 'ge'):
            p = t.args[0]
            if val and self.lits.get(mk('gt', (p,))) is False or not val and self.lits.get(mk('ge', (p,))) is True \
                    or val and self.lits.get(ge(neg(p), ZERO)) is True:
                e = mk('eq', (p,))
                if e.op == 'eq':
                    self._assume(e, True)
        # integer strictness
        if self.cons and self.cons[-1][1] and is_int(self.cons[-1][0]):
            p, _s = self.cons[-1]
            self.cons[-1] = (sub(p, ONE), False)

    def _solve_eq(self, p):
        """remember an atom determined by an assumed equality"""
        if self.eqsub:
            p = rebuild(p, self.eqsub.get, {})
        if p.op != 'poly':
            return
        best = None
        for m, c in p.args:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'first':
                a = m[0][0]
                rest = scale(sub(p, TM._poly({m: c})), -1 / c)
                if rest is a.args[0]:
                    best = (a, rest)     # a search that stops nowhere
                    break
        for m, c in p.args if best is None else ():
            if len(m) != 1 or m[0][1] != 1 or m[0][0].op not in SOLVABLE:
                continue
            a = m[0][0]
            rest = scale(sub(p, TM._poly({m: c})), -1 / c)
            if a.op not in ('r', 'rf', 'ent') and any(x.denominator != 1 for _m, x in rest.args):
                continue
            if contains(rest, a):
                continue
            if best is None or a.id > best[0].id:
                best = (a, rest)
        if best is None:
            return
        a, rest = best
        one = {a: rest}
        self.eqsub = {x: rebuild(y, one.get, {}) for x, y in self.eqsub.items()}
        self.eqsub[a] = rest
        for l, v in list(self.lits.items()):
            l2 = rebuild(l, one.get, {})
            if l2 is l or l2 in (TRUE, FALSE):
                if (l2 is TRUE and not v) or (l2 is FALSE and v):
                    self.bad = True
                continue
            if l2.op == 'not':
                l2, v = l2.args[0], not v
            if l2.op in ('and', 'or', 'ite'):
                continue
            self.lits.setdefault(l2, v)

    def _units(self):
        if self.bad or not self.clauses:
            return
        changed = True
        while changed and not self.bad:
            changed = False
            cl = self.clauses
            self.clauses = []
            for c in cl:
                s = self.simp_bool(c)
                if s is TRUE:
                    continue
                if s is FALSE:
                    self.bad = True
                    return
                if s.op == 'or':
                    self.clauses.append(s)
                else:
                    self._assume(s, True)
                    self.memo = {}
                    self.cache = {}
                    changed = True
            if changed:
                self._check()

    def simp_bool(self, t):
        return simp(t, self)

    def _check(self):
        if not self.bad:
            self.bad = self._infeasible([])

    # -- linear decision
    def _infeasible(self, extra):
        STATS['entail'] += 1
        base = list(self.cons) + extra
        if not base:
            return False
        lins = []
        monos = set()
        pend = []

        def push(p, s):
            d, k = _lin(p)
            lins.append((d, k, s))
            for m in d:
                if m not in monos:
                    monos.add(m)
                    pend.append(m)
        if extra:
            # only the connected component of the query
            rel = set()
            for p, s in extra:
                push(p, s)
                rel |= set(_lin(p)[0])
            todo = [(p, s) for p, s in self.cons]
            grew = True
            while grew:
                grew = False
                while pend:
                    m = pend.pop()
                    for p, s in axioms(m):
                        push(p, s)
                    for p, s in self._mono(m):
                        push(p, s)
                    for p, s in self._fact(m):
                        push(p, s)
                    rel |= monos
                nt = []
                for p, s in todo:
                    if any(m in rel for m, _c in p.args):
                        push(p, s)
                        rel |= monos
                        grew = True
                    else:
                        nt.append((p, s))
                todo = nt
        else:
            for p, s in base:
                push(p, s)
        while pend:
            m = pend.pop()
            for p, s in axioms(m):
                push(p, s)
            for p, s in self._fact(m):
                push(p, s)
            if extra:
                for p, s in self._mono(m):
                    push(p, s)
        if fm_infeasible(lins):
            return True
        return False

    def _mono(self, m):
        """sign facts about a product of quantities of known sign"""
        if len(m) < 2 or len(m) > 3 or any(e != 1 for _a, e in m):
            return ()
        key = ('mono', m)
        r = self.cache.get(key)
        if r is not None:
            return r
        self.cache[key] = ()
        out = []
        ps = [atom(a) for a, _e in m]
        if all(self.truth(ge(p, ZERO)) is True for p in ps):
            mp = TM._poly({m: Q(1)})
            out.append((mp, False))
            if len(m) == 2:
                for p, q in ((ps[0], ps[1]), (ps[1], ps[0])):
                    if self.truth(ge(p, ONE)) is True:
                        out.append((sub(mp, q), False))
        self.cache[key] = tuple(out)
        return self.cache[key]

    def _fact(self, m):
        """bounds of whole-number quotients and of the elements of a permutation of 0..n-1"""
        if len(m) != 1 or m[0][1] != 1:
            return ()
        a = m[0][0]
        while a.op == 'z':
            a = a.args[0]
        if a.op == 'idiv':
            key = ('fact', m)
            r = self.cache.get(key)
            if r is not None:
                return r
            self.cache[key] = ()
            before = set(self.cache)
            E, d = a.args
            out = ()
            if const(d) is not None and const(d) > 0 and E.op == 'poly':
                r = sub(E, mul(TM._poly({m: Q(1)}), d))
                top = sub(sub(d, ONE), r)
                q = TM._poly({m: Q(1)})
                if self.truth(ge(E, ZERO)) is True:
                    out = ((r, False), (top, False), (q, False))
                else:
                    out = ((add(r, sub(d, ONE)), False), (top, False))
            # answers found while this fact was pending are provisional
            for x in list(self.cache):
                if x not in before:
                    del self.cache[x]
            self.cache[key] = out
            return out
        if a.op == 'sel':
            n = permuted(a.args[0])
            if n is not None:
                key = ('fact', m)
                r = self.cache.get(key)
                if r is not None:
                    return r
                self.cache[key] = ()
                i = a.args[1]
                out = ()
                if self.truth(ge(i, ZERO)) is True and self.truth(lt(i, n)) is True:
                    x = TM._poly({m: Q(1)})
                    out = ((x, False), (sub(sub(n, ONE), x), False))
                self.cache[key] = out
                return out
        return ()

    def _inf2(self, extra):
        if self._infeasible(extra):
            return True
        # use disequalities once
        for d in self.diseq:
            if self._rel(d, extra):
                up = [(sub(d, ONE), False)] if is_int(d) else [(d, True)]
                nd = neg(d)
                dn = [(sub(nd, ONE), False)] if is_int(d) else [(nd, True)]
                if self._infeasible(extra + up) and self._infeasible(extra + dn):
                    return True
        return False

    def _rel(self, d, extra):
        ms = {m for m, _c in d.args if m != ()}
        for p, _s in extra:
            if any(m in ms for m, _c in p.args):
                return True
        return False

    def decide(self, t):
        """True / False / None for an atomic condition"""
        v = self.lits.get(t)
        if v is not None:
            return v
        if t in self.cache:
            return self.cache[t]
        r = None
        if t.op in ('ge', 'gt', 'eq'):
            p = t.args[0]
            np = neg(p)
            ip = is_int(p)

            def strict(x):
                return (sub(x, ONE), False) if ip else (x, True)
            if t.op == 'ge':
                if self._inf2([strict(np)]):
                    r = True
                elif self._inf2([(p, False)]):
                    r = False
            elif t.op == 'gt':
                if self._inf2([(np, False)]):
                    r = True
                elif self._inf2([strict(p)]):
                    r = False
            else:
                a = self._inf2([strict(p)])
                b = self._inf2([strict(np)])
                if a and b:
                    r = True
                elif self._inf2([(p, False), (np, False)]):
                    r = False
            if r is None:
                r = self._idiv(t)
            if r is None and t.op == 'eq':
                g, q = common(p)
                if g is not None:
                    e = cmp0('eq', q)
                    v = self.truth(e) if e.op in ('eq', 'true', 'false') else None
                    if v is True:
                        r = True
                    elif v is False and self.truth(cmp0('eq', g)) is False:
                        r = False
        elif t.op == 'oeq':
            # transitivity through known equalities
            a, b = t.args
            cls = {a}
            grew = True
            while grew:
                grew = False
                for l, v in self.lits.items():
                    if l.op == 'oeq' and v:
                        x, y = l.args
                        if (x in cls) != (y in cls):
                            cls |= {x, y}
                            grew = True
            if b in cls:
                r = True
            elif b.op == 'str' and any(c.op == 'str' and c is not b for c in cls):
                r = False
            elif a.op == 'str':
                cb = {b}
                grew = True
                while grew:
                    grew = False
                    for l, v in self.lits.items():
                        if l.op == 'oeq' and v:
                            x, y = l.args
                            if (x in cb) != (y in cb):
                                cb |= {x, y}
                                grew = True
                if any(c.op == 'str' and c is not a for c in cb):
                    r = False
        self.cache[t] = r
        return r


def common(p):
    """(g, p / g) for the largest monomial g dividing p"""
    if len(p.args) < 2 or any(m == () for m, _c in p.args):
        return None, p
    g = dict(p.args[0][0])
    for m, _c in p.args[1:]:
        d = dict(m)
        g = {a: min(e, d[a]) for a, e in g.items() if a in d and e > 0 and d[a] > 0}
        if not g:
            return None, p
    q = {}
    for m, c in p.args:
        d = dict(m)
        for a, e in g.items():
            d[a] -= e
        q[tuple((a, e) for a, e in ((a, d[a]) for a, _e in m) if e)] = c
    gm = tuple((a, g[a]) for a, _e in p.args[0][0] if a in g)
    return TM._poly({gm: Q(1)}), TM._poly(q)


def _decide_idiv(self, t):
    """q = E / d truncated, E >= 0, d > 0:  q >= c  <=>  E >= c d"""
    p = t.args[0]
    if t.op == 'gt' or not is_int(p):
        return None
    for m, c in p.args:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'idiv' and c in (1, -1):
            E, d = m[0][0].args
            if self.truth(gt(d, ZERO)) is not True or self.truth(ge(E, ZERO)) is not True:
                continue
            rest = sub(p, TM._poly({m: c}))
            if contains(rest, m[0][0]):
                continue
            if t.op == 'ge':
                if c == 1:
                    q = ge(add(E, mul(rest, d)), ZERO)
                    if self.truth(ge(rest, ZERO)) is True:
                        return True
                else:
                    q = gt(mul(add(rest, ONE), d), E)
                r = self.truth(q)
                if r is not None:
                    return r
            else:
                v = neg(rest) if c == 1 else rest
                lo, hi = self.truth(ge(E, mul(v, d))), self.truth(lt(E, mul(add(v, ONE), d)))
                if lo is True and hi is True:
                    return True
                if lo is False or hi is False:
                    return False
    return None


def _truth(self, t):
    if t.op == 'not':
        r = self.truth(t.args[0])
        return None if r is None else not r
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op in ('ge', 'gt', 'eq'):
        return self.decide(t)
    return None


Ctx._idiv = _decide_idiv
Ctx.truth = _truth


def simp(t, ctx):
    if ctx.bad:
        return t

    es = ctx.eqsub

    def f(x):
        if x in es:
            return es[x]
        if x.op in ('ge', 'gt', 'eq', 'p', 'oeq', 'bapp') or (x.op == 'var' and x.args[1] == 'b'):
            v = ctx.lits.get(x)
            if v is None:
                # simplify inside first
                y = x
                if x.args and x.op != 'var':
                    na = tuple(rebuild(a, f, ctx.memo) if type(a) is T else a for a in x.args)
                    if na != x.args:
                        y = mk(x.op, na)
                if y.op in ('true', 'false'):
                    return y
                if y.op in ('ge', 'gt', 'eq', 'p', 'oeq', 'bapp'):
                    v = ctx.decide(y)
                    if v is None:
                        return y
                else:
                    if y is x:
                        return y
                    return rebuild(y, f, ctx.memo)
            return TRUE if v else FALSE
        if x.op == 'ite':
            c = rebuild(x.args[0], f, ctx.memo)
            if c is TRUE:
                return rebuild(x.args[1], f, ctx.memo)
            if c is FALSE:
                return rebuild(x.args[2], f, ctx.memo)
        return None
    return rebuild(t, f, ctx.memo)


def has_ite(t, memo):
    r = memo.get(t)
    if r is not None:
        return r
    r = False
    if t.op == 'ite':
        r = True
    elif t.op == 'poly':
        r = any(has_ite(a, memo) for m, _c in t.args for a, _e in m)
    else:
        r = any(has_ite(a, memo) for a in t.args if type(a) is T)
    memo[t] = r
    return r


_HI = {}


def _free_bv(t):
    return any(x.op == 'bv' for x in t.fv)


def find_split(t, seen):
    """an atomic condition controlling t (no conditional inside it)"""
    if t in seen:
        return None
    seen.add(t)
    op = t.op
    if op in ('ge', 'gt', 'eq', 'p', 'oeq', 'bapp') or (op == 'var' and t.args[1] == 'b'):
        if op != 'var' and has_ite(t, _HI):
            for a in t.args:
                if type(a) is T:
                    r = find_split(a, seen)
                    if r is not None:
                        return r
        if _free_bv(t):
            return None
        return t
    if op == 'ite':
        r = find_split(t.args[0], seen)
        if r is not None:
            return r
        for a in t.args[1:]:
            r = find_split(a, seen)
            if r is not None:
                return r
        return None
    if op in ('and', 'or', 'not'):
        for a in t.args:
            r = find_split(a, seen)
            if r is not None:
                return r
        return None
    if op == 'poly':
        for m, _c in t.args:
            for a, _e in m:
                if has_ite(a, _HI):
                    r = find_split(a, seen)
                    if r is not None:
                        return r
        return None
    if op in ('lam',):
        return find_split(t.args[1], seen) if has_ite(t, _HI) else None
    for a in t.args:
        if type(a) is T and (has_ite(a, _HI) or is_bool(a)):
            r = find_split(a, seen)
            if r is not None:
                return r
    return None


FAIL = []


def fail(a, b, ctx, why):
    FAIL.append((why, a, b, ctx.trail))
    return False


def equal(a, b, ctx, depth=0):
    """True if a and b denote the same value whenever ctx holds (b may leave values unspecified)."""
    if a is b or ctx.bad:
        return True
    if depth > 120:
        raise Budget('depth')
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Budget('time')
    a = simp(a, ctx)
    b = simp(b, ctx)
    if a is b:
        return True
    if b.op == 'undef':
        return True
    # structural descent before splitting keeps the splits local
    r = _descend(a, b, ctx, depth)
    if r is not None:
        return r
    s = find_split_pair(a, b)
    if s is not None:
        STATS['splits'] += 1
        if STATS['splits'] > LIMIT[0]:
            raise Budget('splits')
        for v in (True, False):
            c2 = ctx.add(s, v)
            if c2.bad:
                continue
            if not equal(a, b, c2, depth + 1):
                return False
        return True
    STATS['leaves'] += 1
    if leaf_equal(a, b, ctx, depth):
        return True
    n = len(FAIL)
    if ctx.clauses:
        # the context may be contradictory in a way that needs case analysis
        cl = ctx.clauses[0]
        at = find_split(cl, set())
        if at is not None:
            ok = True
            for v in (True, False):
                c2 = ctx.add(at, v)
                if c2.bad:
                    continue
                if not equal(a, b, c2, depth + 1):
                    ok = False
                    break
            if ok:
                return True
            return False
    c2 = enrich(a, b, ctx)
    if c2 is not None:
        if c2.bad:
            return True
        if equal(a, b, c2, depth + 1):
            return True
        return False
    s = order_split(a, b, ctx)
    if s is not None:
        for v in (True, False):
            c2 = ctx.add(s, v)
            if c2.bad:
                continue
            if not equal(a, b, c2, depth + 1):
                return False
        return True
    return fail(a, b, ctx, 'values differ')


def find_split_pair(a, b):
    seen = set()
    r = find_split(a, seen)
    if r is not None:
        return r
    return find_split(b, seen)


SEQLIKE = ('seq', 'list')


def bare(m):
    """an opaque matrix read as a word of length one is that matrix"""
    if m.op == 'nc' and len(m.args) == 3:
        w = m.args[2]
        if len(w.args) == 2 and w.args[0] is ONE and w.args[1].op not in ('mT', 'minv', 'mat', 'mlam'):
            return w.args[1]
    return m


def _descend(a, b, ctx, depth):
    ao, bo = a.op, b.op
    if (ao == 'nc') != (bo == 'nc'):
        a2, b2 = bare(a), bare(b)
        if a2 is not a or b2 is not b:
            if a2 is b2:
                return True
    if ao == 'struct' or bo == 'struct':
        if ao == 'ite' or bo == 'ite':
            return None
        s = a if ao == 'struct' else b
        names = [n for n, _v in fields(s)]
        if ao == bo and a.args[0] != b.args[0]:
            return fail(a, b, ctx, 'different types %s / %s' % (a.args[0], b.args[0]))
        for n in names:
            if n.startswith('#ign'):
                continue
            if not equal(fld(a, n), unwrap_like(fld(b, n), fld(a, n)), ctx, depth + 1):
                return False
        return True
    if ao in SEQLIKE or bo in SEQLIKE:
        if ao == 'ite' or bo == 'ite':
            return None
        if not equal(length(a), length(b), ctx, depth + 1):
            return False
        n = simp(length(a), ctx)
        c = const(n)
        if c is not None and c <= 40:
            for i in range(int(c)):
                if not equal(sel(a, num(i)), sel(b, num(i)), ctx, depth + 1):
                    return False
            return True
        v = atom(fresh('i', 'j'))
        c2 = ctx.add(ge(v, ZERO)).add(lt(v, n)) if not has_ite(n, _HI) else \
            ctx.add(and_(ge(v, ZERO), lt(v, n)))
        if c2.bad:
            return True
        return equal(sel(a, v), sel(b, v), c2, depth + 1)
    if ao == 'opt' or bo == 'opt':
        if ao == 'ite' or bo == 'ite':
            return None
        if not equal(opt_has(a), opt_has(b), ctx, depth + 1):
            return False
        c2 = ctx.add(opt_has(b))
        if c2.bad:
            return True
        return equal(opt_val(a), opt_val(b), c2, depth + 1)
    if ao in ('mat', 'mlam') or bo in ('mat', 'mlam'):
        if ao == 'ite' or bo == 'ite':
            return None
        if not equal(mrows(a), mrows(b), ctx, depth + 1):
            return False
        if not equal(mcols(a), mcols(b), ctx, depth + 1):
            return False
        r, c = const(mrows(b)), const(mcols(b))
        if r is not None and c is not None and r * c <= 400:
            for i in range(int(r)):
                for j in range(int(c)):
                    if not equal(ment(a, num(i), num(j)), ment(b, num(i), num(j)), ctx, depth + 1):
                        return False
            return True
        i, j = atom(fresh('i', 'i')), atom(fresh('i', 'j'))
        if const(simp(mrows(a), ctx)) == 1:
            i = ZERO
        if const(simp(mcols(a), ctx)) == 1:
            j = ZERO
        c2 = ctx.add(and_(ge(i, ZERO), lt(i, mrows(a)), ge(j, ZERO), lt(j, mcols(a))))
        if c2.bad:
            return True
        return equal(ment(a, i, j), ment(b, i, j), c2, depth + 1)
    return None


def unwrap_like(x, y):
    return x


def strip(t):
    """remove scalar-read wrappers"""
    a = t
    if a.op == 'poly':
        x = as_atom(a)
        if x is None:
            return t
        a = x
    while a.op in ('z', 'r', 'rf', 'p'):
        a = a.args[0]
    return a


def leaf_equal(a, b, ctx, depth):
    if a is b:
        return True
    if strip(a) is strip(b):
        return True
    if is_bool(a) or is_bool(b):
        # all atoms fixed: differing constants; undecidable atoms under binders fall here
        if a.op == b.op and a.op in ('p', 'oeq', 'bapp', 'eq', 'ge', 'gt'):
            return cong(a, b, ctx, depth)
        return False
    if a.op == 'poly' and b.op == 'poly':
        return zero(sub(a, b), ctx, depth)
    if a.op == 'poly' or b.op == 'poly':
        x, y = strip(a), strip(b)
        if x.op == y.op and x.op != 'poly':
            return cong(x, y, ctx, depth)
        return False
    return cong(a, b, ctx, depth)


_CONG_DEPTH = [0]


def cong(a, b, ctx, depth):
    """same constructor, equal arguments"""
    if a is b:
        return True
    if a.op != b.op or len(a.args) != len(b.args):
        return False
    if a.op in ('var', 'bv', 'str'):
        return False
    if a.op == 'nc':
        return nc_equal(a, b, ctx, depth)
    for x, y in zip(a.args, b.args):
        if type(x) is T and type(y) is T:
            if x is y:
                continue
            if x.op == 'lam' and y.op == 'lam':
                continue
            if not quiet_equal(x, y, ctx, depth):
                return False
        elif x != y:
            return False
    for i, (x, y) in enumerate(zip(a.args, b.args)):
        if type(x) is T and x.op == 'lam' and x is not y:
            v = fresh('i', 'k')
            va = atom(v)
            c2 = ctx
            if a.op in ('sum', 'first', 'seq', 'fold1') and a.args[0].op == 'poly':
                c2 = ctx.add(and_(ge(va, ZERO), lt(va, a.args[0])))
            elif a.op == 'firstinf':
                c2 = ctx.add(ge(va, ZERO))
            elif a.op == 'fold' and a.args[1].op == 'poly':
                c2 = ctx.add(and_(ge(va, ZERO), lt(va, a.args[1])))
            if c2.bad:
                continue
            if not lam_equal(x, y, va, c2, depth):
                return False
    return True


def lam_equal(x, y, va, ctx, depth):
    return quiet_equal(app(x, va), app(y, va), ctx, depth)


def quiet_equal(x, y, ctx, depth):
    n = len(FAIL)
    if x.op == 'lam' and y.op == 'lam':
        v = atom(fresh('i', 'k'))
        return quiet_equal(app(x, v), app(y, v), ctx, depth + 1)
    r = equal(x, y, ctx, depth + 1)
    if not r:
        del FAIL[n:]
    return r


def clear_inv(D):
    """multiply out denominators"""
    for _ in range(40):
        invs = {}
        negs = {}
        for m, _c in D.args:
            for a, e in m:
                if a.op == 'inv' and e > 0:
                    invs[a] = max(invs.get(a, 0), e)
                elif e < 0:
                    negs[a] = max(negs.get(a, 0), -e)
        if not invs and not negs:
            return D
        if negs:
            f = ONE
            for a, e in negs.items():
                f = mul(f, powi(atom(a), e))
            D = mul(D, f)
            continue
        # outermost inv first (largest id)
        a = max(invs, key=lambda t: t.id)
        e = invs[a]
        p = a.args[0]
        out = []
        for m, c in D.args:
            k = dict(m).get(a, 0)
            m2 = tuple((x, y) for x, y in m if x is not a)
            out.append(mul(mk_raw('poly', ((m2, c),)), powi(p, e - k)))
        D = add(*out)
    return D


def zero(D, ctx, depth):
    if D is ZERO:
        return True
    D = clear_inv(D)
    if D is ZERO:
        return True
    c = const(D)
    if c is not None:
        return False
    t = cmp0('eq', D)
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if ctx.decide(t) is True:
        return True
    D2 = eq_reduce(D, ctx)
    if D2 is not D:
        D = clear_inv(D2)
        if D is ZERO:
            return True
    # unify atoms congruently
    atoms = []
    for m, _c in D.args:
        for a, _e in m:
            if a not in atoms:
                atoms.append(a)
    rep = {}
    for i, a in enumerate(atoms):
        if a.op in ('var', 'bv', 'len') and not (a.op == 'len'):
            continue
        for b in atoms[:i]:
            if b in rep or a.op != b.op or len(a.args) != len(b.args):
                continue
            if cong(a, b, ctx, depth):
                rep[a] = b
                break
    if rep:
        D = TM._subst_poly(D, lambda x: rep.get(x, x))
        D = clear_inv(D)
        if D is ZERO or const(D) == 0:
            return True
        if ctx.decide(cmp0('eq', D)) is True:
            return True
    D2 = rebuild(D, expand_word, {})
    if D2 is not D:
        return zero(simp(D2, ctx), ctx, depth)
    # combine sums over the same range
    sums = [a for m, _c in D.args for a, _e in m if a.op == 'sum']
    if sums:
        groups = []
        rest = ZERO
        for m, c in D.args:
            ss = [(a, e) for a, e in m if a.op == 'sum']
            if len(ss) == 1 and ss[0][1] == 1:
                s = ss[0][0]
                coef = mk_raw('poly', ((tuple((a, e) for a, e in m if a is not s), c),))
                for g in groups:
                    if g[0] is s.args[0] or quiet_equal(g[0], s.args[0], ctx, depth):
                        g[1].append((coef, s))
                        break
                else:
                    groups.append((s.args[0], [(coef, s)]))
            elif not ss:
                rest = add(rest, mk_raw('poly', ((m, c),)))
            else:
                return False
        if rest is not ZERO and not zero(rest, ctx, depth):
            return False
        for n, items in groups:
            if len(items) == 1:
                # a lone sum must vanish termwise
                pass
            v = atom(fresh('i', 'k'))
            B = add(*[mul(co, app(s.args[1], v)) for co, s in items])
            c2 = ctx.add(and_(ge(v, ZERO), lt(v, n)))
            if c2.bad:
                continue
            if not quiet_equal(B, ZERO, c2, depth):
                return False
        return True
    return False


def expand_word(x):
    """an entry of a matrix product as a sum over the inner dimension"""
    if x.op in ('r', 'rf'):
        return expand_word(x.args[0])
    if x.op == 'ent' and x.args[0].op == 'word':
        w = x.args[0].args
        i, j = x.args[1], x.args[2]
        n = mcols(w[0])
        if const(n) is not None or w[0].op == 'minv':
            n = mrows(w[1])
        rest = w[1] if len(w) == 2 else mk_raw('word', w[1:])
        return sum_(n, lam(lambda k: mul(ment(w[0], i, k), ment(rest, k, j) if len(w) == 2 else
                                         rebuild(atom(mk_raw('ent', (rest, k, j))), expand_word, {}))))
    return None


def eq_reduce(D, ctx):
    """rewrite with equalities assumed in ctx: replace a linear integer/real atom"""
    for l, v in ctx.lits.items():
        if l.op != 'eq' or not v:
            continue
        p = l.args[0]
        for m, c in reversed(p.args):
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                rest = sub(mk_raw('poly', ((m, Q(1)),)), scale(p, 1 / c))
                if contains(rest, a):
                    continue
                if a.op not in ('r', 'rf', 'ent') and any(x.denominator != 1 for _m, x in rest.args):
                    continue
                if contains(D, a):
                    D = replace_atom(D, a, rest)
                break
    return D


def contains(t, a, memo=None):
    if memo is None:
        memo = {}
    if t is a:
        return True
    r = memo.get(t)
    if r is not None:
        return r
    memo[t] = False
    if t.op == 'poly':
        r = any(contains(x, a, memo) for m, _c in t.args for x, _e in m)
    else:
        r = any(contains(x, a, memo) for x in t.args if type(x) is T)
    memo[t] = r
    return r


def replace_atom(t, a, p):
    return rebuild(t, lambda x: p if x is a else None, {})


def nc_equal(a, b, ctx, depth):
    wa = {w.args[1:]: w.args[0] for w in a.args[2:]}
    wb = {w.args[1:]: w.args[0] for w in b.args[2:]}
    if not (quiet_equal(a.args[0], b.args[0], ctx, depth) and
            quiet_equal(a.args[1], b.args[1], ctx, depth)):
        return False
    left = dict(wb)
    for w, c in wa.items():
        hit = None
        for w2, c2 in left.items():
            if len(w) == len(w2) and (w == w2 or all(
                    x is y or quiet_equal(x, y, ctx, depth) for x, y in zip(w, w2))):
                if quiet_equal(c, c2, ctx, depth):
                    hit = w2
                    break
        if hit is None:
            return False
        del left[hit]
    return not left


# ------------------------------------------------------------------ facts about searches
def firsts_in(ts):
    out = []
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op in ('first', 'firstinf') and not _free_bv(t):
            out.append(t)
        if t.op == 'poly':
            for m, _c in t.args:
                for a, _e in m:
                    go(a)
        else:
            for a in t.args:
                if type(a) is T:
                    go(a)
    for t in ts:
        go(t)
    return out


def enrich(a, b, ctx):
    """add what the definition of a search says about indices in play; None if nothing new"""
    ts = [a, b] + [t for t, _v in ctx.trail]
    fs = firsts_in(ts)
    if not fs:
        return None
    c = ctx
    new = False
    cands = []
    for f in fs:
        cands.append(atom(f))
    for t in ts:
        for v in t.fv:
            if v.op == 'var' and v.args[1] == 'i' and '~' in v.args[0]:
                p = atom(v)
                if p not in cands:
                    cands.append(p)
    for f in fs:
        F = atom(f)
        if f.op == 'first':
            n, l = f.args
            if c.decide_any(lt(F, n)) is True:
                e = app(l, F)
                if new_fact(e, c):
                    c = c.add(e)
                    new = True
                    if c.bad:
                        return c
        else:
            l = f.args[0]
            e = app(l, F)
            if new_fact(e, c):
                c = c.add(e)
                new = True
                if c.bad:
                    return c
        for k in cands:
            if k is F:
                continue
            if c.decide_any(and_(ge(k, ZERO), lt(k, F))) is True:
                e = not_(app(l, k))
                if new_fact(e, c):
                    c = c.add(e)
                    new = True
                    if c.bad:
                        return c
    return c if new else None


def new_fact(e, ctx):
    if e is TRUE:
        return False
    if any(t is e and v for t, v in ctx.trail):
        return False
    s = simp(e, ctx)
    return s is not TRUE


def _decide_any(self, t):
    s = simp(t, self)
    if s is TRUE:
        return True
    if s is FALSE:
        return False
    return None


Ctx.decide_any = _decide_any


def order_split(a, b, ctx):
    fs = firsts_in([a, b])
    cands = [atom(f) for f in fs]
    for i in range(len(cands)):
        f = fs[i]
        if f.op == 'first':
            t = lt(cands[i], f.args[0])
            if not has_ite(t, _HI) and t.op in ('ge', 'not') and ctx.decide_any(t) is None:
                return t.args[0] if t.op == 'not' else t
        for j in range(i):
            t = ge(cands[i], cands[j])
            if ctx.decide_any(t) is None:
                return t.args[0] if t.op == 'not' else t
            t = ge(cands[j], cands[i])
            if ctx.decide_any(t) is None:
                return t.args[0] if t.op == 'not' else t
    # index variables against searches
    vs = [atom(v) for t in (a, b) for v in t.fv if v.op == 'var' and v.args[1] == 'i' and
          '~' in v.args[0]]
    for t0, _v in ctx.trail:
        for v in t0.fv:
            if v.op == 'var' and v.args[1] == 'i' and '~' in v.args[0]:
                vs.append(atom(v))
    for v in vs:
        for f in cands:
            t = lt(v, f)
            if ctx.decide_any(t) is None:
                return t.args[0] if t.op == 'not' else t
    return None


# ------------------------------------------------------------------ matching intermediate values
BINDERS = ('mlam', 'first', 'firstinf', 'sum', 'seq', 'fold', 'pfold', 'fold1')


def binders_in(t):
    out = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in BINDERS and not _free_bv(x):
            out.append(x)
        if x.op == 'poly':
            stack += [a for m, _c in x.args for a, _e in m]
        else:
            stack += [a for a in x.args if type(a) is T]
    return sorted(out, key=lambda x: x.id)


def leaves_of(t):
    return frozenset(v for v in t.fv if v.op == 'var' and not str(v.args[0]).startswith('undef'))


def unify(a, b, ctx, per=400):
    """replace intermediate values of b by provably equal ones of a; None when nothing matched"""
    hits = 0
    done = set()
    for _ in range(400):
        A = binders_in(a)
        B = binders_in(b)
        sa, sb = set(A), set(B)
        A = [x for x in A if x not in sb]
        B = [x for x in B if x not in sa]
        hit = None
        for u in B:
            for t in A:
                if t.op != u.op or (t, u) in done:
                    continue
                done.add((t, u))
                if leaves_of(t) != leaves_of(u):
                    continue
                if try_equal(t, u, ctx, per):
                    hit = (u, t)
                    break
            if hit:
                break
        if hit is None:
            break
        hits += 1
        u, t = hit
        f = lambda x: t if x is u else None
        b = rebuild(b, f, {})
        a = rebuild(a, f, {})
    return (a, b) if hits else None


def try_equal(t, u, ctx, per):
    lim, n, s0 = LIMIT[0], len(FAIL), STATS['splits']
    LIMIT[0] = min(lim, s0 + per)
    try:
        if t.op in ('mlam', 'seq'):
            return equal(t, u, ctx, 1)
        return cong(t, u, ctx, 1)
    except Budget:
        return False
    finally:
        LIMIT[0] = lim
        del FAIL[n:]


def decide_equal(a, b, ctx):
    """the entry point: direct comparison, then after matching intermediate values"""
    STATS.update(splits=0, leaves=0, entail=0)
    FAIL.clear()
    lim = LIMIT[0]
    LIMIT[0] = 3000
    try:
        if equal(a, b, ctx):
            return True
    except Budget:
        pass
    finally:
        LIMIT[0] = lim
    if equal_unified(a, b, ctx):
        return True
    return False


def equal_unified(a, b, ctx):
    STATS['splits'] = 0
    a, b = simp(a, ctx), simp(b, ctx)
    r = unify(a, b, ctx)
    if r is None:
        if FAIL:
            return False
        return equal(a, b, ctx)
    a, b = r
    del FAIL[:]
    STATS['splits'] = 0
    return equal(a, b, ctx)
