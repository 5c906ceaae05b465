"""Hash-consed terms and their normal forms.

Numbers are polynomials over the rationals whose indeterminates are opaque atoms, booleans are
and/or/not over normalised comparisons, everything else (sequences, records, matrices, optionals,
pointers, closures) is a constructor term.  All values the analysis computes are such terms.
"""
from fractions import Fraction as Q
from math import gcd

import struct as _struct


class T:
    __slots__ = ('op', 'args', 'id', 'bh', 'fv', '_int', '__weakref__')

    def __repr__(self):
        return show(self)


_TAB = {}
_N = [0]
EMPTY = frozenset()


def mk_raw(op, args):
    key = (op, args)
    t = _TAB.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    _N[0] += 1
    t.id = _N[0]
    t._int = None
    bh = 0
    fv = None
    if op == 'poly':
        for mono, _c in args:
            for a, _e in mono:
                if a.bh > bh:
                    bh = a.bh
                if a.fv:
                    fv = a.fv if fv is None else (fv if a.fv <= fv else fv | a.fv)
    else:
        for a in args:
            if type(a) is T:
                if a.bh > bh:
                    bh = a.bh
                if a.fv:
                    fv = a.fv if fv is None else (fv if a.fv <= fv else fv | a.fv)
    if op == 'lam':
        bh = args[0]
        b = bv(args[0])
        if fv and b in fv:
            fv = fv - {b}
    if op in ('var', 'bv'):
        fv = frozenset((t,))
    t.bh = bh
    t.fv = fv or EMPTY
    _TAB[key] = t
    return t


def bv(h):
    return mk_raw('bv', (h,))


_FRESH = [0]


def var(name, sort):
    return mk_raw('var', (name, sort))


def fresh(sort, hint='k'):
    _FRESH[0] += 1
    return mk_raw('var', ('%s~%d' % (hint, _FRESH[0]), sort))


# ------------------------------------------------------------------ polynomials
def _poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return mk_raw('poly', tuple(items))


def num(x):
    x = Q(x)
    if x == 0:
        return ZERO
    return mk_raw('poly', (((), x),))


ZERO = mk_raw('poly', ())
ONE = mk_raw('poly', (((), Q(1)),))
TRUE = mk_raw('true', ())
FALSE = mk_raw('false', ())
UNDEF = mk_raw('undef', ())
NULL = mk_raw('null', ())
UNIT = mk_raw('unit', ())


def atom(t):
    if t.op == 'poly':
        return t
    return mk_raw('poly', ((((t, 1),), Q(1)),))


def as_atom(p):
    """The atom a poly consists of, or None."""
    if p.op == 'poly' and len(p.args) == 1:
        m, c = p.args[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def is_num(t):
    return t.op == 'poly'


def const(p):
    """Fraction value of a constant poly, or None."""
    if p.op != 'poly':
        return None
    if not p.args:
        return Q(0)
    if len(p.args) == 1 and p.args[0][0] == ():
        return p.args[0][1]
    return None


def add(*ps):
    d = {}
    for p in ps:
        for m, c in p.args:
            d[m] = d.get(m, 0) + c
    return _poly(d)


def scale(p, c):
    if c == 1:
        return p
    if c == 0:
        return ZERO
    return mk_raw('poly', tuple((m, k * c) for m, k in p.args))


def neg(p):
    return scale(p, Q(-1))


def sub(a, b):
    return add(a, neg(b))


_MM = {}


def _mulmono(m1, m2):
    """Product of two monomials as a poly (special atoms are rewritten)."""
    key = (m1, m2)
    r = _MM.get(key)
    if r is not None:
        return r
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = []
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        if a.op == 'sqrt':
            q, rem = divmod(e, 2)
            if q:
                extra.append(powi(a.args[0], q))
                if rem:
                    d[a] = rem
                else:
                    del d[a]
        elif a.op == 'sin' and e >= 2:
            q, rem = divmod(e, 2)
            c = atom(mk_raw('cos', a.args))
            extra.append(powi(sub(ONE, mul(c, c)), q))
            if rem:
                d[a] = rem
            else:
                del d[a]
        elif a.op == 'inv' and e < 0:
            extra.append(powi(a.args[0], -e))
            del d[a]
    mono = tuple(sorted(d.items(), key=lambda ae: ae[0].id))
    r = mk_raw('poly', ((mono, Q(1)),))
    for x in extra:
        r = mul(r, x)
    _MM[key] = r
    return r


_MUL = {}


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    ca = const(a)
    if ca is not None:
        return scale(b, ca)
    cb = const(b)
    if cb is not None:
        return scale(a, cb)
    key = (a, b) if a.id < b.id else (b, a)
    r = _MUL.get(key)
    if r is not None:
        return r
    d = {}
    for m1, c1 in a.args:
        for m2, c2 in b.args:
            for m, c in _mulmono(m1, m2).args:
                d[m] = d.get(m, 0) + c * c1 * c2
    r = _poly(d)
    _MUL[key] = r
    return r


def powi(p, n):
    if n < 0:
        return powi(inv(p), -n)
    r = ONE
    for _ in range(n):
        r = mul(r, p)
    return r


def inv(p):
    c = const(p)
    if c is not None:
        if c == 0:
            return atom(mk_raw('inv', (ZERO,)))
        return num(1 / c)
    if len(p.args) == 1:
        m, c = p.args[0]
        r = num(1 / c)
        for a, e in m:
            if a.op == 'sqrt' and e > 0:
                x = mul(powi(atom(a), e), powi(inv(a.args[0]), e))
            elif a.op == 'inv' and e > 0:
                x = powi(a.args[0], e)
            elif a.op == 'ite' and e > 0:
                x = powi(ite(a.args[0], inv(a.args[1]), inv(a.args[2])), e)
            else:
                x = mk_raw('poly', ((((a, -e),), Q(1)),))
            r = mul(r, x)
        return r
    # monic
    lead = p.args[-1][1] if p.args[0][0] == () else p.args[0][1]
    q = scale(p, 1 / lead)
    return scale(atom(mk_raw('inv', (q,))), 1 / lead)


def div(a, b):
    return mul(a, inv(b))


INT_OPS = {'z', 'len', 'first', 'trunc', 'floor', 'idiv', 'imod', 'rows', 'cols', 'icast',
           'lb', 'round', 'rint', 'ceil', 'bits', 'isign'}


def is_int(t):
    if t._int is None:
        r = False
        if t.op == 'poly':
            r = True
            for m, c in t.args:
                if c.denominator != 1:
                    r = False
                    break
                for a, e in m:
                    if e < 0 or not is_int(a):
                        r = False
                        break
        elif t.op == 'var':
            r = t.args[1] == 'i'
        elif t.op == 'bv':
            r = True   # bound variables are indices
        elif t.op in INT_OPS:
            r = True
        elif t.op == 'ite':
            r = all(x.op != 'undef' and is_int(x) for x in t.args[1:])
        elif t.op in ('sum', 'prod'):
            r = is_int(t.args[1].args[1])
        elif t.op == 'app':
            r = str(t.args[0]).startswith('i:')
        t._int = r
    return t._int


# ------------------------------------------------------------------ booleans
def _lead(p):
    for m, c in p.args:
        if m != ():
            return c
    return None


def _split_const(p):
    if p.args and p.args[0][0] == ():
        return p.args[0][1]
    return Q(0)


def _nonneg(m):
    return all(e % 2 == 0 or a.op == 'sqrt' for a, e in m)


def _signed(kind, p):
    """comparisons of sums of squares and of products with zero"""
    ms = [(m, c) for m, c in p.args if m != ()]
    c0 = _split_const(p)
    s = 1 if ms[0][1] > 0 else -1
    if all(_nonneg(m) and c * s > 0 for m, c in ms) and c0 * s >= 0:
        if kind == 'ge' and s > 0:
            return TRUE
        if kind == 'gt' and s < 0:
            return FALSE
        if c0 != 0:
            return TRUE if s > 0 else FALSE
        if len(ms) == 1 and kind == 'eq':
            m = ms[0][0]
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sqrt':
                return cmp0('eq', m[0][0].args[0])
            return None
        z = and_(*[cmp0('eq', _poly({m: Q(1)})) for m, _c in ms])
        return not_(z) if kind == 'gt' else z
    if kind != 'eq' and len(ms) == 1 and c0 == 0:
        m, c = ms[0]
        if any(e < 0 or is_int(a) for a, e in m):
            return None
        if len(m) == 1 and m[0][1] == 1:
            if m[0][0].op == 'sqrt' and c > 0:
                return TRUE if kind == 'ge' else cmp0('gt', m[0][0].args[0])
            return None
        odd = [a for a, e in m if e % 2 and a.op != 'sqrt']
        if len(odd) > 2:
            return None
        nz = and_(*[not_(cmp0('eq', atom(a))) for a, _e in m if a not in odd])
        zs = or_(*[cmp0('eq', atom(a)) for a, _e in m if a not in odd])
        if not odd:
            pos, neg_ = TRUE, FALSE
        elif len(odd) == 1:
            pos, neg_ = cmp0(kind, atom(odd[0])), cmp0(kind, neg(atom(odd[0])))
        else:
            x, y = atom(odd[0]), atom(odd[1])
            pos = or_(and_(cmp0(kind, x), cmp0(kind, y)),
                      and_(cmp0(kind, neg(x)), cmp0(kind, neg(y))))
            neg_ = or_(and_(cmp0(kind, x), cmp0(kind, neg(y))),
                       and_(cmp0(kind, neg(x)), cmp0(kind, y)))
        t = pos if c > 0 else neg_
        return and_(nz, t) if kind == 'gt' else or_(zs, t)
    return None


def _extreme(kind, p):
    """a comparison with the smallest or largest coefficient of a vector is one with all or some of them"""
    hit = None
    for m, c in p.args:
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'r':
            continue
        x = m[0][0].args[0]
        if x.op != 'app' or len(x.args) != 2 or x.args[0] not in ('minCoeff', 'maxCoeff'):
            continue
        v = x.args[1]
        if type(v) is not T or v.op != 'mlam' or const(v.args[1]) != 1:
            continue
        if hit is not None:
            return None
        hit = (m[0][0], c, x.args[0], v)
    if hit is None:
        return None
    a, c, f, v = hit
    rest = sub(p, scale(atom(a), c))
    n = v.args[0]
    every = (c > 0) == (f == 'minCoeff')

    def at(i):
        x = app(app(v.args[2], i), ZERO)
        return cmp0(kind, add(scale(x, c), rest))
    if every:
        return not_(lt(first(n, lam(lambda i: not_(at(i)))), n))
    return lt(first(n, lam(at)), n)


def cmp0(kind, p):
    """kind: 'ge' p>=0, 'gt' p>0, 'eq' p==0."""
    c = const(p)
    if c is not None:
        r = c >= 0 if kind == 'ge' else (c > 0 if kind == 'gt' else c == 0)
        return TRUE if r else FALSE
    if len(p.args) == 1 and kind == 'eq':
        # product of atoms is zero
        m, c = p.args[0]
        if all(e > 0 for _a, e in m) and (len(m) > 1 or m[0][1] > 1):
            return or_(*[cmp0('eq', atom(a)) for a, _e in m])
    r = _signed(kind, p)
    if r is not None:
        return r
    if kind != 'eq':
        r = _extreme(kind, p)
        if r is not None:
            return r
    intp = False
    if all(e > 0 and is_int(a) for m, _c in p.args for a, e in m):
        intp = True
    if intp:
        den = 1
        for m, c in p.args:
            if m != ():
                den = den * c.denominator // gcd(den, c.denominator)
        g = 0
        for m, c in p.args:
            if m != ():
                g = gcd(g, abs(int(c * den)))
        f = Q(den, g)
        q = scale(p, f)
        c0 = _split_const(q)
        if kind == 'eq':
            if c0.denominator != 1:
                return FALSE
        else:
            # q' + c0 >= 0  <=>  q' + floor(c0) >= 0 ; q'+c0 > 0 <=> q' + ceil(c0)-1 >= 0
            if kind == 'ge':
                n0 = Q(c0.numerator // c0.denominator)
            else:
                n0 = Q(-((-c0.numerator) // c0.denominator) - 1)
            q = add(q, num(n0 - c0))
            kind = 'ge'
        if _lead(q) < 0:
            q = neg(q)
            if kind == 'ge':
                return not_(mk_raw('ge', (add(q, num(-1)),)))
        if kind == 'eq':
            for m, c in q.args:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'first' and c in (1, -1):
                    d = sub(m[0][0].args[0], atom(m[0][0]))   # the search never passes its end
                    if d is q or neg(d) is q:
                        return not_(cmp0('ge', sub(d, ONE)))
        return mk_raw(kind, (q,))
    ld = _lead(p)
    q = scale(p, 1 / abs(ld))
    if ld < 0:
        q = neg(q)
        if kind == 'ge':
            return not_(mk_raw('gt', (q,)))
        if kind == 'gt':
            return not_(mk_raw('ge', (q,)))
    return mk_raw(kind, (q,))


def ge(a, b):
    return cmp0('ge', sub(a, b))


def gt(a, b):
    return cmp0('gt', sub(a, b))


def le(a, b):
    return ge(b, a)


def lt(a, b):
    return gt(b, a)


def eqn(a, b):
    return cmp0('eq', sub(a, b))


def not_(t):
    op = t.op
    if op == 'true':
        return FALSE
    if op == 'false':
        return TRUE
    if op == 'not':
        return t.args[0]
    if op == 'and':
        return or_(*[not_(x) for x in t.args])
    if op == 'or':
        return and_(*[not_(x) for x in t.args])
    if op == 'undef':
        return UNDEF
    return mk_raw('not', (t,))


def _nary(op, unit, zero, ts):
    out = set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t is unit:
            continue
        if t is zero:
            return zero
        if t.op == op:
            stack.extend(t.args)
        else:
            out.add(t)
    for t in out:
        if t.op == 'not' and t.args[0] in out:
            return zero
    if not out:
        return unit
    # absorption  a & (a | b) = a ; a & (!a | b) = a & b
    dual = 'or' if op == 'and' else 'and'
    changed = True
    while changed:
        changed = False
        for t in list(out):
            if t.op == dual:
                keep = []
                drop = False
                for x in t.args:
                    if x in out:
                        drop = True
                        break
                    if not_(x) in out:
                        continue
                    keep.append(x)
                if drop:
                    out.discard(t)
                    changed = True
                    break
                if len(keep) != len(t.args):
                    out.discard(t)
                    n = (or_ if op == 'and' else and_)(*keep)
                    if n is zero:
                        return zero
                    if n is not unit:
                        if n.op == op:
                            out.update(n.args)
                        else:
                            out.add(n)
                    for y in out:
                        if not_(y) in out:
                            return zero
                    changed = True
                    break
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out))
    return mk_raw(op, tuple(sorted(out, key=lambda t: t.id)))


def and_(*ts):
    return _nary('and', TRUE, FALSE, ts)


def or_(*ts):
    return _nary('or', FALSE, TRUE, ts)


BOOL_OPS = {'true', 'false', 'not', 'and', 'or', 'ge', 'gt', 'eq', 'p', 'oeq', 'bapp'}


def is_bool(t):
    return t.op in BOOL_OPS or (t.op == 'var' and t.args[1] == 'b')


def b2n(b):
    return ite(b, ONE, ZERO)


# ------------------------------------------------------------------ ite on any value
def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.op == 'undef':
        return b
    if b.op == 'undef':
        return a
    if is_bool(a) and is_bool(b):
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    # collapse nested tests of the same condition
    a = _under(a, c, True)
    b = _under(b, c, False)
    if a is b:
        return a
    x = as_atom(a) if a.op == 'poly' else a
    if x is not None and x.op == 'ite':     # the inner test implies the outer one
        if x.args[2] is b and _implies(x.args[0], c):
            return a
        if x.args[1] is b and _implies(not_(x.args[0]), c):
            return a
    if a.op == 'poly' and b.op == 'poly':
        if c.op == 'ge' and is_int(a) and is_int(b):
            # the larger or the smaller of two whole numbers: which one is taken when they are equal is immaterial
            d = sub(a, b)
            q = add(c.args[0], ONE)
            if q is d or q is neg(d):
                c2 = ge(q, ZERO)
                if c2.op == 'not':
                    return atom(mk_raw('ite', (c2.args[0], b, a)))
                return atom(mk_raw('ite', (c2, a, b))) if c2 is not TRUE and c2 is not FALSE else a
        return atom(mk_raw('ite', (c, a, b)))
    if a.op == b.op:
        op = a.op
        if op == 'struct' and len(a.args) == len(b.args) and a.args[0] == b.args[0] and \
                all(x.args[0] == y.args[0] for x, y in zip(a.args[1:], b.args[1:])):
            return mk_raw('struct', (a.args[0],) + tuple(
                mk_raw('f', (x.args[0], ite(c, x.args[1], y.args[1])))
                for x, y in zip(a.args[1:], b.args[1:])))
        if op == 'list' and len(a.args) == len(b.args):
            return mk_raw('list', tuple(ite(c, x, y) for x, y in zip(a.args, b.args)))
        if op == 'mat' and a.args[:2] == b.args[:2]:
            return mk_raw('mat', a.args[:2] + tuple(
                ite(c, x, y) for x, y in zip(a.args[2:], b.args[2:])))
        if op == 'opt':
            return opt(ite(c, a.args[0], b.args[0]), ite(c, a.args[1], b.args[1]))
        if op == 'ptr' and len(a.args) == len(b.args) and a.args[0] is b.args[0]:
            # same object, differing only in indices: merge the index
            sels = []
            ok = True
            for x, y in zip(a.args[1:], b.args[1:]):
                if x is y:
                    sels.append(x)
                elif type(x) is T and type(y) is T and x.op == 'si' and y.op == 'si':
                    sels.append(mk_raw('si', (ite(c, x.args[0], y.args[0]),)))
                else:
                    ok = False
                    break
            if ok:
                return mk_raw('ptr', (a.args[0],) + tuple(sels))
        if op == 'iter' and a.args[0] is b.args[0] and a.args[2:] == b.args[2:]:
            return mk_raw('iter', (a.args[0], ite(c, a.args[1], b.args[1])) + a.args[2:])
    if a.op in ('seq', 'list') and b.op in ('seq', 'list'):
        return seq(ite(c, length(a), length(b)), lambda j: ite(c, sel(a, j), sel(b, j)))
    if a.op in ('mat', 'mlam') and b.op in ('mat', 'mlam'):
        ra, ca = mrows(a), mcols(a)
        rb, cb = mrows(b), mcols(b)
        return mlam(ite(c, ra, rb), ite(c, ca, cb), lambda i, j: ite(c, ment(a, i, j), ment(b, i, j)))
    return mk_raw('ite', (c, a, b))


def _implies(d, c):
    """d is a tighter bound than c (by form)"""
    if c is d:
        return True
    if c.op == 'not' and d.op == 'not':
        return _implies(c.args[0], d.args[0])
    if c.op == 'ge' and d.op in ('ge', 'gt') or c.op == d.op == 'gt':
        k = const(sub(c.args[0], d.args[0])) if is_num(sub(c.args[0], d.args[0])) else None
        return k is not None and k >= 0
    return False


def _under(t, c, v):
    """t under the assumption c == v (outermost tests only)."""
    for _ in range(50):
        x = t
        if t.op == 'poly':
            x = as_atom(t)
            if x is None:
                return t
        if x.op == 'ite':
            if x.args[0] is c:
                t = x.args[1] if v else x.args[2]
                continue
        return t
    return t


# ------------------------------------------------------------------ binders
def lam(fn, sort='i', hint='k'):
    v = fresh(sort, hint)
    body = fn(atom(v) if sort in 'ir' else v)
    return close(v, body)


def close(v, body):
    h = body.bh + 1
    b = bv(h)
    return mk_raw('lam', (h, subst(body, {v: atom_or(b, v)})))


def atom_or(b, v):
    return b


def app(l, x):
    """instantiate a one-argument lambda"""
    h, body = l.args
    b = bv(h)
    if b not in body.fv:
        return body
    return subst(body, {b: x})


_SEQ_MEMO = {}


def subst(t, m):
    """Simultaneous substitution of leaf terms (vars / bvs) by terms."""
    return _subst(t, m, frozenset(m), {})


def _subst(t, m, keys, memo):
    if not t.fv or keys.isdisjoint(t.fv):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op in ('var', 'bv'):
        r = m.get(t, t)
    elif op == 'poly':
        r = _subst_poly(t, lambda a: _subst(a, m, keys, memo))
    elif op == 'lam':
        h, body = t.args
        v = fresh('i')
        b = bv(h)
        m2 = dict(m)
        m2[b] = v
        nb = _subst(body, m2, keys | {b}, {})
        r = close(v, nb)
    else:
        r = mk(op, tuple(_subst(a, m, keys, memo) if type(a) is T else a for a in t.args))
    memo[t] = r
    return r


def _subst_poly(t, f):
    """Rebuild a polynomial with its atoms mapped by f."""
    mp = {}
    changed = False
    for m, _c in t.args:
        for a, _e in m:
            if a not in mp:
                x = f(a)
                mp[a] = x
                if x is not a:
                    changed = True
    if not changed:
        return t
    out = []
    for m, c in t.args:
        r = num(c)
        for a, e in m:
            x = mp[a]
            if x.op != 'poly':
                x = atom(x) if not is_bool(x) else b2n(x)
            r = mul(r, powi(x, e))
        out.append(r)
    return add(*out) if out else ZERO


def rebuild(t, f, memo):
    """Bottom-up rebuild; f(t) may return a replacement (or None)."""
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        op = t.op
        if op == 'poly':
            r = _subst_poly(t, lambda a: rebuild(a, f, memo))
        elif op == 'lam':
            h, body = t.args
            v = fresh('i')
            nb0 = subst(body, {bv(h): v})
            nb = rebuild(nb0, f, memo)
            r = t if nb is nb0 else close(v, nb)
        elif t.args and any(type(a) is T for a in t.args):
            na = tuple(rebuild(a, f, memo) if type(a) is T else a for a in t.args)
            r = t if na == t.args else mk(op, na)
        else:
            r = t
    memo[t] = r
    return r


# ------------------------------------------------------------------ smart constructors
def mk(op, args):
    f = _CTOR.get(op)
    if f is not None:
        return f(*args)
    return mk_raw(op, args)


def wrap_num(x):
    return x if x.op == 'poly' else (b2n(x) if is_bool(x) else atom(x))


def coerce(kind, t):
    """Read an opaque value as a scalar: z int, r double, rf float, p bool."""
    if t.op == 'undef':
        return t
    if kind == 'p':
        if is_bool(t):
            return t
        if t.op == 'poly':
            return not_(cmp0('eq', t))
        if t.op == 'ite':
            return ite(t.args[0], coerce('p', t.args[1]), coerce('p', t.args[2]))
        return mk_raw('p', (t,))
    if t.op == 'poly':
        return t
    if is_bool(t):
        return b2n(t)
    if t.op == 'ite':
        return ite(t.args[0], coerce(kind, t.args[1]), coerce(kind, t.args[2]))
    if t.op == 'var' and t.args[1] in 'ir':
        return atom(t)
    if t.op == 'bv':
        return atom(t)
    return atom(mk_raw(kind, (t,)))


def struct(name, fields):
    return mk_raw('struct', (name,) + tuple(mk_raw('f', (k, v)) for k, v in fields))


def fields(s):
    return [(x.args[0], x.args[1]) for x in s.args[1:]]


def fld(b, n):
    op = b.op
    if op == 'struct':
        for x in b.args[1:]:
            if x.args[0] == n:
                return x.args[1]
        return mk_raw('fld', (b, n))
    if op == 'ite':
        return ite(b.args[0], fld(b.args[1], n), fld(b.args[2], n))
    if op == 'undef':
        return b
    return mk_raw('fld', (b, n))


def with_fld(b, n, v):
    assert b.op == 'struct', b.op
    out = []
    hit = False
    for x in b.args[1:]:
        if x.args[0] == n:
            out.append(mk_raw('f', (n, v)))
            hit = True
        else:
            out.append(x)
    if not hit:
        out.append(mk_raw('f', (n, v)))
    return mk_raw('struct', (b.args[0],) + tuple(out))


def within(body, v, n):
    """body, to be read at indices v of [0, n) only: its outer conditions drop what that settles"""
    if body.op == 'poly':
        a = as_atom(body)
        if a is None or a.op != 'ite':
            return body
    elif body.op == 'ite':
        a = body
    elif body.op == 'mlam':
        r, c, l = body.args
        r2, c2 = within(r, v, n), within(c, v, n)
        if r2 is r and c2 is c:
            return body
        if const(r2) is None or const(c2) is None:
            return mk_raw('mlam', (r2, c2, l))
        return mlam(r2, c2, lambda i, j: within(app(app(l, i), j), v, n))
    else:
        return body
    lo, hi = ge(v, ZERO), ge(v, n)
    m = {}
    for t, val in ((lo, TRUE), (hi, FALSE)):
        if t.op == 'not':
            t, val = t.args[0], not_(val)
        if t.op == 'ge':
            m[t] = val

    def go(t):
        x = t
        if t.op == 'poly':
            x = as_atom(t)
            if x is None:
                return t
        if x.op != 'ite':
            return t
        c = cond(x.args[0])
        if c is TRUE:
            return go(x.args[1])
        if c is FALSE:
            return go(x.args[2])
        p, q = go(x.args[1]), go(x.args[2])
        if c is x.args[0] and p is x.args[1] and q is x.args[2]:
            return t
        return ite(c, p, q)

    def cond(c):
        if c in m:
            return m[c]
        if c.op == 'not':
            return not_(cond(c.args[0]))
        if c.op == 'and':
            return and_(*[cond(x) for x in c.args])
        if c.op == 'or':
            return or_(*[cond(x) for x in c.args])
        return c
    return go(body)


def seq(n, fn):
    """fn: index poly -> term"""
    c = const(n)
    if c is not None and c <= 0:
        return mk_raw('list', ())
    if c is not None and c.denominator == 1 and c <= 40:
        return mk_raw('list', tuple(fn(num(i)) for i in range(int(c))))
    v = fresh('i', 'k')
    va = atom(v)
    l = close(v, within(fn(va), va, n))
    # eta: a sequence that just re-reads another one of the same length
    body = l.args[1]
    b = bv(l.args[0])
    inner = body
    if inner.op == 'poly':
        inner = as_atom(inner)
    while inner is not None and inner.op in ('z', 'r', 'rf', 'p'):
        inner = inner.args[0]
    if inner is not None and inner.op == 'sel' and as_atom(inner.args[1]) is b and \
            b not in inner.args[0].fv and length(inner.args[0]) is n:
        return inner.args[0]
    return mk_raw('seq', (n, l))


def mk_seq(n, l):
    return seq(n, lambda j: app(l, j))


def length(s):
    op = s.op
    if op == 'seq':
        return s.args[0]
    if op == 'list':
        return num(len(s.args))
    if op == 'ite':
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if op == 'undef':
        return ZERO
    if op == 'str':
        return num(len(s.args[0]))
    return atom(mk_raw('len', (s,)))


_SEL = {}


def sel(s, i):
    op = s.op
    if op == 'seq':
        key = (s, i)
        r = _SEL.get(key)
        if r is None:
            r = app(s.args[1], i)
            _SEL[key] = r
        return r
    if op == 'list':
        c = const(i)
        if c is not None:
            c = int(c)
            if 0 <= c < len(s.args):
                return s.args[c]
            return mk_raw('sel', (s, i))
        if not s.args:
            return UNDEF
        r = s.args[-1]
        for k in range(len(s.args) - 2, -1, -1):
            r = ite(eqn(i, num(k)), s.args[k], r)
        return r
    if op == 'ite':
        return ite(s.args[0], sel(s.args[1], i), sel(s.args[2], i))
    if op == 'undef':
        return s
    return mk_raw('sel', (s, wrap_num(i)))


def opt(has, v):
    if has is FALSE:
        v = UNDEF
    return mk_raw('opt', (has, v))


NONE_OPT = opt(FALSE, UNDEF)


def opt_has(o):
    if o.op == 'opt':
        return o.args[0]
    if o.op == 'ite':
        return ite(o.args[0], opt_has(o.args[1]), opt_has(o.args[2]))
    return mk_raw('p', (mk_raw('fld', (o, '#has')),))


def opt_val(o):
    if o.op == 'opt':
        return o.args[1]
    if o.op == 'ite':
        return ite(o.args[0], opt_val(o.args[1]), opt_val(o.args[2]))
    return mk_raw('fld', (o, '#val'))


# matrices
def mat(r, c, ents):
    return mk_raw('mat', (r, c) + tuple(ents))


def mlam(r, c, fn):
    cr, cc = const(r), const(c)
    if cr is not None and cc is not None and cr * cc <= 400:
        cr, cc = int(cr), int(cc)
        return mat(cr, cc, [fn(num(i), num(j)) for i in range(cr) for j in range(cc)])
    l = lam(lambda i: lam(lambda j: fn(i, j)))
    return mk_raw('mlam', (r, c, l))


def mk_mlam(r, c, l):
    return mlam(r, c, lambda i, j: app(app(l, i), j))


def mrows(m):
    if m.op == 'mat':
        return num(m.args[0])
    if m.op == 'mlam':
        return m.args[0]
    if m.op == 'nc':
        return m.args[0]
    if m.op == 'ite':
        return ite(m.args[0], mrows(m.args[1]), mrows(m.args[2]))
    if m.op == 'undef':
        return ZERO
    if m.op == 'mT':
        return mcols(m.args[0])
    if m.op == 'minv':
        return mrows(m.args[0])
    return atom(mk_raw('rows', (m,)))


def mcols(m):
    if m.op == 'mat':
        return num(m.args[1])
    if m.op == 'mlam':
        return m.args[1]
    if m.op == 'nc':
        return m.args[1]
    if m.op == 'ite':
        return ite(m.args[0], mcols(m.args[1]), mcols(m.args[2]))
    if m.op == 'undef':
        return ZERO
    if m.op == 'mT':
        return mrows(m.args[0])
    if m.op == 'minv':
        return mcols(m.args[0])
    return atom(mk_raw('cols', (m,)))


def ment(m, i, j):
    op = m.op
    if op == 'mat':
        ci, cj = const(i), const(j)
        R, C = m.args[0], m.args[1]
        if ci is not None and cj is not None:
            if 0 <= ci < R and 0 <= cj < C:
                return m.args[2 + int(ci) * C + int(cj)]
            return atom(mk_raw('r', (mk_raw('ent', (m, i, j)),)))
        if R * C == 0:
            return UNDEF
        r = None
        for a in range(R - 1, -1, -1):
            if ci is not None and ci != a:
                continue
            row = None
            for b in range(C - 1, -1, -1):
                if cj is not None and cj != b:
                    continue
                e = m.args[2 + a * C + b]
                row = e if row is None else ite(eqn(j, num(b)), e, row)
            r = row if r is None else ite(eqn(i, num(a)), row, r)
        return r if r is not None else UNDEF
    if op == 'mlam':
        return app(app(m.args[2], i), j)
    if op == 'ite':
        return ite(m.args[0], ment(m.args[1], i, j), ment(m.args[2], i, j))
    if op == 'undef':
        return m
    if op == 'nc':
        out = ZERO
        for w in m.args[2:]:
            coef, word = w.args[0], w.args[1:]
            if not word:
                out = add(out, mul(coef, ite(eqn(i, j), ONE, ZERO)))
            elif len(word) == 1 and word[0].op == 'mlam':
                out = add(out, mul(coef, ment(word[0], i, j)))
            elif len(word) == 1 and word[0].op == 'mT':
                out = add(out, mul(coef, ment(word[0].args[0], j, i)))
            elif len(word) == 1:
                out = add(out, mul(coef, ment(word[0], i, j)))
            else:
                out = add(out, mul(coef, atom(mk_raw('r', (mk_raw('ent', (
                    mk_raw('word', word), i, j)),)))))
        return out
    if op == 'mT':
        return ment(m.args[0], j, i)
    return atom(mk_raw('r', (mk_raw('ent', (m, i, j)),)))


def first(n, l):
    """Smallest k in [0, n) with l(k), else n."""
    c = const(n)
    if c is not None and c <= 0:
        return ZERO if c <= 0 else n
    body = l.args[1]
    b = bv(l.args[0])
    if body is FALSE:
        return n
    if body is TRUE:
        return ite(gt(n, ZERO), ZERO, n)
    if b not in body.fv:
        return ite(and_(body, gt(n, ZERO)), ZERO, n)
    if c is not None and c <= 16:
        k = 0
        while k < c:
            t = subst(body, {b: num(k)})
            if t is TRUE:
                return num(k)
            if t is not FALSE:
                break
            k += 1
        else:
            return n
    # upper bounds on the index that are conjuncts of the body move into the range
    if body.op == 'and' or body.op in ('ge', 'not'):
        conj = body.args if body.op == 'and' else (body,)
        for x in conj:
            ub = _upper(x, b)
            if ub is not None:
                # k < ub
                rest = and_(*[y for y in conj if y is not x])
                m = min_(n, ub)
                m = max_(m, ZERO)
                f = first(m, mk_raw('lam', (l.args[0], rest))) if rest.bh + 1 == l.args[0] \
                    else first(m, _relam(l.args[0], rest))
                return ite(lt(f, m), f, n)
    return atom(mk_raw('first', (n, l)))


def _relam(h, body):
    v = fresh('i')
    return close(v, subst(body, {bv(h): v}))


def _upper(x, b):
    """x <=> b < U with U free of b: return U."""
    neg_ = False
    if x.op == 'not':
        neg_ = True
        x = x.args[0]
    if x.op != 'ge':
        return None
    p = x.args[0]
    co = None
    rest = {}
    for m, c in p.args:
        if m == ((b, 1),):
            co = c
        elif any(b in a.fv for a, _e in m):
            return None
        else:
            rest[m] = c
    if co is None or abs(co) != 1:
        return None
    r = _poly(rest)
    if not neg_ and co == -1:      # r - b >= 0 -> b < r+1
        return add(r, ONE)
    if neg_ and co == 1:           # b + r < 0 -> b < -r
        return neg(r)
    return None


def _lower(x, b):
    """x <=> b >= L with L free of b: return L."""
    neg_ = False
    if x.op == 'not':
        neg_ = True
        x = x.args[0]
    if x.op != 'ge':
        return None
    p = x.args[0]
    co = None
    rest = {}
    for m, c in p.args:
        if m == ((b, 1),):
            co = c
        elif any(b in a.fv for a, _e in m):
            return None
        else:
            rest[m] = c
    if co is None or abs(co) != 1:
        return None
    r = _poly(rest)
    if not neg_ and co == 1:      # b + r >= 0
        return neg(r)
    if neg_ and co == -1:           # r - b < 0 -> b >= r+1
        return add(r, ONE)
    return None


def firstinf(l):
    return atom(mk_raw('firstinf', (l,)))


def min_(a, b):
    if a is b:
        return a
    return ite(le(a, b), a, b)


def max_(a, b):
    if a is b:
        return a
    return ite(ge(a, b), a, b)


def sum_(n, l):
    """sum over k in [0, n) of l(k)"""
    c = const(n)
    if c is not None and c <= 0:
        return ZERO
    if c is not None and c.denominator == 1 and c <= 40:
        return add(*[app(l, num(k)) for k in range(int(c))])
    h, body = l.args
    b = bv(h)
    if body.op == 'undef':
        return body
    if b not in body.fv:
        return mul(max_(n, ZERO), body)
    # guard bounds move into the range:  ite(c, f, 0)
    a = as_atom(body)
    if a is not None and a.op == 'ite':
        c, x, y = a.args
        if y is ZERO or x is ZERO:
            if x is ZERO:
                c, x = not_(c), y
            conj = c.args if c.op == 'and' else (c,)
            for z in conj:
                ub = _upper(z, b)
                if ub is not None:
                    rest = and_(*[w for w in conj if w is not z])
                    return sum_(max_(min_(n, ub), ZERO), _relam(h, ite(rest, x, ZERO)))
                lb = _lower(z, b)
                if lb is not None:
                    rest = and_(*[w for w in conj if w is not z])
                    lo = max_(lb, ZERO)
                    f = _relam(h, ite(rest, x, ZERO))
                    return sum_(max_(sub(n, lo), ZERO), lam(lambda k: app(f, add(k, lo))))
    # a term that differs at one index only
    for m, _co in body.args:
        for x, _e in m:
            if x.op == 'ite' and x.args[0].op == 'eq' and b in x.args[0].fv:
                at = _unit_solve(x.args[0].args[0], b)
                if at is None or b in at.fv:
                    continue
                on = rebuild(body, lambda y: x.args[1] if y is x else None, {})
                off = rebuild(body, lambda y: x.args[2] if y is x else None, {})
                one = sub(app(_relam(h, on), at), app(_relam(h, off), at))
                return add(sum_(n, _relam(h, off)),
                           ite(and_(ge(at, ZERO), lt(at, n)), one, ZERO))
    # linearity
    groups = {}
    free = []
    for m, co in body.args:
        dep = tuple((x, e) for x, e in m if b in x.fv)
        ind = tuple((x, e) for x, e in m if b not in x.fv)
        if not dep:
            free.append(((), ind, co))
        else:
            groups.setdefault(ind, []).append((dep, co))
    out = ZERO
    for _d, ind, co in free:
        out = add(out, mul(max_(n, ZERO), mk_raw('poly', ((ind, co),))))
    for ind, deps in groups.items():
        bodyp = _poly({d: co for d, co in deps})
        lead = bodyp.args[0][1]
        bodyp = scale(bodyp, 1 / lead)
        s = atom(mk_raw('sum', (n, _orient(n, _relam(h, bodyp)))))
        out = add(out, mul(mk_raw('poly', ((ind, lead),)), s))
    return out


def _unit_solve(p, b):
    """the value of b at which p vanishes, when b occurs linearly with coefficient +-1 only"""
    co, rest = None, {}
    for m, c in p.args:
        if m == ((b, 1),):
            co = c
        elif any(b in a.fv for a, _e in m):
            return None
        else:
            rest[m] = c
    if co is None or abs(co) != 1:
        return None
    return scale(_poly(rest), -1 / co)


def _orient(n, l):
    """Choose one of l(k) and l(n-1-k)."""
    if 'sel' not in _ops_in(l):
        return l
    v = fresh('i')
    bod = subst(l.args[1], {bv(l.args[0]): v})
    sg = _dirs(bod, v)
    if sg and all(s < 0 for s in sg):
        return lam(lambda k: app(l, sub(sub(n, ONE), k)))
    return l


def _ops_in(t):
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.add(x.op)
        if x.op == 'poly':
            for m, _c in x.args:
                for a, _e in m:
                    st.append(a)
        else:
            for a in x.args:
                if type(a) is T:
                    st.append(a)
    return out


def _dirs(t, v):
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen or v not in x.fv:
            continue
        seen.add(x)
        if x.op == 'sel':
            for m, c in x.args[1].args:
                if m == ((v, 1),):
                    out.add(1 if c > 0 else -1)
        if x.op == 'poly':
            for m, _c in x.args:
                for a, _e in m:
                    st.append(a)
        else:
            for a in x.args:
                if type(a) is T:
                    st.append(a)
    return out


def sqrt(p):
    c = const(p)
    if c is not None and c >= 0:
        import math
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if rn * rn == c.numerator and rd * rd == c.denominator:
            return num(Q(rn, rd))
    a = as_atom(p)
    if a is not None and a.op == 'ite':
        return ite(a.args[0], sqrt(a.args[1]), sqrt(a.args[2]))
    if p.args and len(p.args) == 1:
        m, c = p.args[0]
        if len(m) == 1 and m[0][1] == 2 and c == 1:
            return abs_(atom(m[0][0]))
    return atom(mk_raw('sqrt', (p,)))


def abs_(p):
    c = const(p)
    if c is not None:
        return num(abs(c))
    a = as_atom(p)
    if a is not None and a.op == 'sqrt':
        return p
    return ite(ge(p, ZERO), p, neg(p))


def sin(p):
    if p is ZERO:
        return ZERO
    ld = _lead(p)
    if ld is not None and ld < 0:
        return neg(sin(neg(p)))
    return atom(mk_raw('sin', (p,)))


def cos(p):
    if p is ZERO:
        return ONE
    ld = _lead(p)
    if ld is not None and ld < 0:
        return cos(neg(p))
    return atom(mk_raw('cos', (p,)))


def to_f32(x):
    try:
        return Q(_struct.unpack('f', _struct.pack('f', float(x)))[0])
    except (OverflowError, ValueError):
        return x


def f32(p):
    c = const(p)
    if c is not None:
        return num(to_f32(c))
    a = as_atom(p)
    if a is not None:
        if a.op in ('rf', 'f32'):
            return p
        if a.op == 'ite':
            return ite(a.args[0], f32(a.args[1]), f32(a.args[2]))
    ld = _lead(p)
    if ld < 0:
        return neg(f32(neg(p)))
    return atom(mk_raw('f32', (p,)))


def trunc(p):
    if is_int(p):
        return p
    c = const(p)
    if c is not None:
        n = abs(c.numerator) // c.denominator
        return num(n if c >= 0 else -n)
    a = as_atom(p)
    if a is not None and a.op == 'ite':
        return ite(a.args[0], trunc(a.args[1]), trunc(a.args[2]))
    q = int_quotient(p)
    if q is not None:
        return idiv(*q)
    return atom(mk_raw('trunc', (p,)))


def int_quotient(p):
    """(N, D) of whole numbers with p = N / D, for a polynomial with a divisor"""
    if p.op != 'poly':
        return None
    den = {}
    k = 1
    for m, c in p.args:
        k = k * c.denominator // gcd(k, c.denominator)
        for a, e in m:
            if e < 0:
                den[a] = max(den.get(a, 0), -e)
    if any(not is_int(a) for a in den):
        return None
    d = num(k)
    for a, e in den.items():
        d = mul(d, powi(atom(a), e))
    n = mul(p, d)
    if not is_int(n):
        return None
    return n, d


def floor(p):
    if is_int(p):
        return p
    c = const(p)
    if c is not None:
        return num(c.numerator // c.denominator)
    return atom(mk_raw('floor', (p,)))


def icast(bits, sg, p):
    """narrowing to a small integer type"""
    c = const(p)
    if c is not None and c.denominator == 1:
        v = int(c) % (1 << bits)
        if sg and v >= 1 << (bits - 1):
            v -= 1 << bits
        return num(v)
    a = as_atom(p)
    if a is not None and a.op == 'icast' and a.args[0] <= bits and (a.args[1] == sg or
                                                                   (sg and a.args[0] < bits)):
        return p
    if a is not None and a.op == 'ite':
        return ite(a.args[0], icast(bits, sg, a.args[1]), icast(bits, sg, a.args[2]))
    return atom(mk_raw('icast', (bits, sg, p)))


def idiv(a, b):
    ca, cb = const(a), const(b)
    if cb is not None and cb != 0:
        if ca is not None:
            q = abs(int(ca)) // abs(int(cb))
            return num(q if (ca >= 0) == (cb > 0) else -q)
        if all((c / cb).denominator == 1 for _m, c in a.args):
            return scale(a, 1 / cb)
    return atom(mk_raw('idiv', (a, b)))


def imod(a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None and cb != 0:
        r = abs(int(ca)) % abs(int(cb))
        return num(r if ca >= 0 else -r)
    if cb is not None and cb != 0 and all((c / cb).denominator == 1 for _m, c in a.args):
        return ZERO
    return sub(a, mul(b, idiv(a, b)))


def oeq(a, b):
    """equality of two opaque values (strings, enums of unknown kind, pointers)"""
    if a is b:
        return TRUE
    if a.op == 'ite':
        return ite(a.args[0], oeq(a.args[1], b), oeq(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], oeq(a, b.args[1]), oeq(a, b.args[2]))
    if a.op == 'poly' and b.op == 'poly':
        return eqn(a, b)
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if {a.op, b.op} == {'ptr', 'null'} or {a.op, b.op} == {'closure', 'null'}:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'str' and x.args[0] == '':
            return eqn(length(y), ZERO)
    if a.id > b.id:
        a, b = b, a
    return mk_raw('oeq', (a, b))


def poly_ctor(*items):
    return mk_raw('poly', items)


def round_(p):
    a = as_atom(p)
    if a is not None and a.op == 'ite':
        return ite(a.args[0], round_(a.args[1]), round_(a.args[2]))
    c = const(p)
    if c is not None:
        n = abs(c) + Q(1, 2)
        n = n.numerator // n.denominator
        return num(n if c >= 0 else -n)
    if is_int(p):
        return p
    return atom(mk_raw('round', (p,)))


def fn_app(name, *args):
    """uninterpreted function returning a real"""
    return atom(mk_raw('app', (name,) + args))


_CTOR = {
    'not': not_, 'and': and_, 'or': or_,
    'ge': lambda p: cmp0('ge', p), 'gt': lambda p: cmp0('gt', p), 'eq': lambda p: cmp0('eq', p),
    'ite': ite, 'z': lambda t: coerce('z', t), 'r': lambda t: coerce('r', t),
    'rf': lambda t: coerce('rf', t), 'p': lambda t: coerce('p', t),
    'fld': fld, 'seq': mk_seq, 'len': length, 'sel': sel, 'opt': opt,
    'mlam': mk_mlam, 'rows': mrows, 'cols': mcols, 'ent': lambda m, i, j: _ent(m, i, j),
    'first': first, 'sum': sum_, 'sqrt': sqrt, 'sin': sin, 'cos': cos, 'f32': f32, 'trunc': trunc,
    'floor': floor, 'round': round_, 'idiv': idiv, 'inv': inv, 'oeq': oeq, 'icast': icast,
}


def _ent(m, i, j):
    if m.op in ('mat', 'mlam', 'ite', 'nc', 'undef', 'mT'):
        return ment(m, i, j)
    if m.op == 'word' and len(m.args) == 1:
        return ment(m.args[0], i, j)
    return mk_raw('ent', (m, i, j))


def _fix_nested():
    pass


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if type(t) is not T:
        return str(t)
    if d > 14:
        return '…'
    op = t.op
    if op == 'poly':
        if not t.args:
            return '0'
        out = []
        for m, c in t.args:
            s = '*'.join((show(a, d + 1) if e == 1 else '%s^%d' % (show(a, d + 1), e))
                         for a, e in m)
            if not s:
                s = str(c) if c.denominator < 10000 else repr(float(c))
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%s*%s' % (c if c.denominator < 10000 else repr(float(c)), s)
            out.append(s)
        return out[0] if len(out) == 1 else '(' + ' + '.join(out) + ')'
    if op == 'var':
        return str(t.args[0])
    if op == 'bv':
        return '@%d' % t.args[0]
    if op == 'lam':
        return 'λ@%d.%s' % (t.args[0], show(t.args[1], d + 1))
    if op in ('ge', 'gt', 'eq'):
        return '%s%s0' % (show(t.args[0], d + 1), {'ge': '≥', 'gt': '>', 'eq': '='}[op])
    if op == 'not':
        return '!' + show(t.args[0], d + 1)
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(show(a, d + 1) for a in t.args) + ')'
    if op in ('z', 'r', 'rf', 'p'):
        return show(t.args[0], d + 1)
    if op == 'fld':
        return '%s.%s' % (show(t.args[0], d + 1), t.args[1])
    if op == 'sel':
        return '%s[%s]' % (show(t.args[0], d + 1), show(t.args[1], d + 1))
    if op == 'ite':
        return '(%s ? %s : %s)' % tuple(show(a, d + 1) for a in t.args)
    if op == 'str':
        return repr(t.args[0])
    if op == 'f':
        return '%s=%s' % (t.args[0], show(t.args[1], d + 1))
    return '%s(%s)' % (op, ', '.join(show(a, d + 1) for a in t.args))
