"""Meaning of the standard library, Eigen and range-v3 operations the code uses."""
from fractions import Fraction as Q

from terms import *
import terms as TM
from interp import (Unsupported, LV, ptr, extend, sf, si, string, seq_write, seq_append, quat,
                    SEQ_TYPES, MAP_TYPES, PTR_TYPES, FNREFS, Frame)
import loops


def sx(*a):
    return mk_raw('sx', a)


# ------------------------------------------------------------------ fields of values
QF = ('w', 'x', 'y', 'z')


def proj_field(I, v, n):
    if v.op == 'refv':
        v = I.load(v.args[0])
    if v.op == 'upd':
        for x in v.args[1:]:
            if x.args[0] == n:
                return x.args[1]
        return proj_field(I, v.args[0], n)
    if v.op == 'mat' and n in ('x', 'y', 'z', 'w'):
        return vec_ent(v, num('xyzw'.index(n)))
    return fld(v, n)


def with_field(I, base, n, v):
    if base.op == 'struct':
        return TM.with_fld(base, n, v)
    if base.op == 'undef' or base.op == 'uninit':
        return struct('?', [(n, v)]) if base.op == 'undef' else upd(base, n, v)
    if base.op == 'mat' and n in ('x', 'y', 'z', 'w'):
        return vec_set(base, num('xyzw'.index(n)), v)
    return upd(base, n, v)


def upd(base, n, v):
    fs = {}
    b = base
    if base.op == 'upd':
        b = base.args[0]
        fs = {x.args[0]: x.args[1] for x in base.args[1:]}
    fs[n] = v
    return mk_upd(b, *[mk_raw('f', (k, fs[k])) for k in sorted(fs)])


def mk_upd(b, *fs):
    d = {x.args[0]: x.args[1] for x in fs}
    if b.op == 'upd':
        d0 = {x.args[0]: x.args[1] for x in b.args[1:]}
        d0.update(d)
        return mk_upd(b.args[0], *[mk_raw('f', (k, d0[k])) for k in sorted(d0)])
    if b.op == 'struct':
        for k, v in d.items():
            b = TM.with_fld(b, k, v)
        return b
    keep = {k: v for k, v in d.items() if not same_field(v, b, k)}
    if not keep:
        return b
    return mk_raw('upd', (b,) + tuple(mk_raw('f', (k, keep[k])) for k in sorted(keep)))


def same_field(v, b, k):
    x = v
    if x.op == 'poly':
        x = as_atom(x)
        if x is None:
            return False
    while x.op in ('z', 'r', 'rf', 'p'):
        x = x.args[0]
    return x.op == 'fld' and x.args[0] is b and x.args[1] == k


TM._CTOR['upd'] = mk_upd
_old_fld = TM.fld


def fld2(b, n):
    if b.op == 'upd':
        for x in b.args[1:]:
            if x.args[0] == n:
                return x.args[1]
        return fld2(b.args[0], n)
    if b.op == 'refv':
        return mk_raw('fld', (b, n))
    return _old_fld(b, n)


TM.fld = fld2
TM._CTOR['fld'] = fld2
import decide as DC   # noqa: E402
import interp as IT   # noqa: E402
for _m in (DC, IT, loops):
    _m.fld = fld2
fld = fld2

_old_ite = TM.ite


def ite2(c, a, b):
    if (a.op == 'upd') != (b.op == 'upd') or (a.op == 'upd' and b.op == 'upd'):
        ba = a.args[0] if a.op == 'upd' else a
        bb = b.args[0] if b.op == 'upd' else b
        if ba is bb and c not in (TRUE, FALSE) and a is not b:
            names = sorted({x.args[0] for y in (a, b) if y.op == 'upd' for x in y.args[1:]})
            return mk_upd(ba, *[mk_raw('f', (n, ite2(c, fld(a, n), fld(b, n)))) for n in names])
    return _old_ite(c, a, b)


TM.ite = ite2
TM._CTOR['ite'] = ite2
for _m in (DC, IT, loops):
    _m.ite = ite2
ite = ite2

_old_desc = DC._descend


def _descend2(a, b, ctx, depth):
    if a.op == 'upd' or b.op == 'upd':
        if a.op == 'ite' or b.op == 'ite':
            return None
        names = sorted({x.args[0] for y in (a, b) if y.op == 'upd' for x in y.args[1:]})
        ba = a.args[0] if a.op == 'upd' else a
        bb = b.args[0] if b.op == 'upd' else b
        if ba.op != 'struct' and bb.op != 'struct':
            for n in names:
                if not DC.equal(fld(a, n), fld(b, n), ctx, depth + 1):
                    return False
            return DC.equal(ba, bb, ctx, depth + 1)
    return _old_desc(a, b, ctx, depth)


DC._descend = _descend2


# ------------------------------------------------------------------ matrices
def ncn(rows, cols, words):
    """words: dict tuple(base...) -> coef poly"""
    d = {w: c for w, c in words.items() if c is not ZERO}
    if len(d) == 1:
        (w, c), = d.items()
        if len(w) == 1 and w[0].op in ('mat', 'mlam') and c is ONE:
            return w[0]
        if len(w) == 1 and w[0].op in ('mat', 'mlam'):
            return emap1(lambda x: mul(c, x), w[0])
    ws = sorted(d.items(), key=lambda wc: tuple(b.id for b in wc[0]))
    return mk_raw('nc', (rows, cols) + tuple(mk_raw('w', (c,) + w) for w, c in ws))


def mk_nc(rows, cols, *ws):
    """rebuild after substitution: words may now contain explicit matrices or other nc terms"""
    out = None
    for w in ws:
        c, word = w.args[0], w.args[1:]
        m = None
        for b in word:
            m = b if m is None else mmul(m, b)
        if m is None:
            m = ncn(rows, cols, {(): ONE})
        if m.op == 'undef':
            return m
        m = mscale(m, c)
        out = m if out is None else madd(out, m)
    if out is None:
        return mlam(rows, cols, lambda i, j: ZERO)
    if out.op in ('var', 'fld', 'sel', 'app', 'fold', 'pfold', 'uninit'):
        return ncn(rows, cols, {(out,): ONE})    # the dimensions are known: keep them
    return out


TM._CTOR['nc'] = mk_nc
TM._CTOR['w'] = lambda c, *b: mk_raw('w', (c if c.op == 'poly' else coerce('r', c),) + b)
TM._CTOR['mT'] = lambda m: mT(m)


def dims(m):
    return const(mrows(m)), const(mcols(m))


def is_grid(m):
    return m.op == 'mat'


def to_words(m):
    if m.op == 'nc':
        return {w.args[1:]: w.args[0] for w in m.args[2:]}
    return {(m,): ONE}


def ismat(v):
    return v.op in ('mat', 'mlam', 'nc') or (v.op == 'ite' and ismat(v.args[1]))


def small(m):
    r, c = dims(m)
    return r is not None and c is not None and r * c <= 400


def grid(m):
    if m.op == 'mat':
        return m
    r, c = dims(m)
    return mat(int(r), int(c), [ment(m, num(i), num(j)) for i in range(int(r)) for j in range(int(c))])


def push_ite(f, *ms):
    """apply f to matrices, moving conditionals outwards"""
    for i, m in enumerate(ms):
        if m.op == 'ite':
            return ite(m.args[0], push_ite(f, *ms[:i], m.args[1], *ms[i + 1:]),
                       push_ite(f, *ms[:i], m.args[2], *ms[i + 1:]))
        if m.op == 'undef':
            return UNDEF
    return f(*ms)


def madd(a, b, s=1):
    return push_ite(lambda x, y: _madd(x, y, s), a, b)


def _madd(a, b, s):
    if a.op in ('mat', 'mlam') and b.op in ('mat', 'mlam'):
        return mlam(mrows(a), mcols(a), lambda i, j: add(ment(a, i, j), scale(ment(b, i, j), Q(s))))
    if small(a) or small(b):
        r, c = (mrows(a), mcols(a)) if small(a) else (mrows(b), mcols(b))
        return mlam(r, c, lambda i, j: add(ment(a, i, j), scale(ment(b, i, j), Q(s))))
    w = dict(to_words(a))
    for k, c in to_words(b).items():
        w[k] = add(w.get(k, ZERO), scale(c, Q(s)))
    return ncn(mrows(a), mcols(a), w)


def mscale(m, c):
    def f(m):
        if c is ONE:
            return m
        if m.op in ('mat', 'mlam') or small(m):
            return mlam(mrows(m), mcols(m), lambda i, j: mul(ment(m, i, j), c))
        return ncn(mrows(m), mcols(m), {w: mul(k, c) for w, k in to_words(m).items()})
    return push_ite(f, m)


def mmul(a, b):
    return push_ite(_mmul, a, b)


def _mmul(a, b):
    ca, rb = const(mcols(a)), const(mrows(b))
    inner = ca if ca is not None else rb
    if inner is not None and inner <= 16 and (a.op in ('mat', 'mlam') or small(a)) and \
            (b.op in ('mat', 'mlam') or small(b)):
        n = int(inner)
        return mlam(mrows(a), mcols(b), lambda i, j: add(
            *[mul(ment(a, i, num(k)), ment(b, num(k), j)) for k in range(n)]))
    w = {}
    for x, c in to_words(a).items():
        for y, d in to_words(b).items():
            k = x + y
            w[k] = add(w.get(k, ZERO), mul(c, d))
    return ncn(mrows(a), mcols(b), w)


def mT(m):
    def f(m):
        if m.op in ('mat', 'mlam'):
            return mlam(mcols(m), mrows(m), lambda i, j: ment(m, j, i))
        if m.op == 'nc':
            if small(m):
                return mlam(mcols(m), mrows(m), lambda i, j: ment(m, j, i))
            w = {}
            for word, c in to_words(m).items():
                w[tuple(_bT(b) for b in reversed(word))] = c
            return ncn(mcols(m), mrows(m), w)
        if m.op == 'mT':
            return m.args[0]
        return mk_raw('mT', (m,))
    return push_ite(f, m)


def _bT(b):
    if b.op == 'mT':
        return b.args[0]
    if b.op in ('mat', 'mlam'):
        return mT(b)
    return mk_raw('mT', (b,))


def minv(m):
    def f(m):
        r, c = dims(m)
        if r == 1 and c == 1:
            return mat(1, 1, [inv(ment(m, ZERO, ZERO))])
        base = mk_raw('minv', (m,))
        if small(m):
            r = int(r)
            if r == 2:
                g = grid(m).args[2:]
                det = sub(mul(g[0], g[3]), mul(g[1], g[2]))
                return mat(2, 2, [div(g[3], det), div(neg(g[1]), det), div(neg(g[2]), det),
                                  div(g[0], det)])
            return mat(r, r, [atom(mk_raw('r', (mk_raw('ent', (base, num(i), num(j))),)))
                              for i in range(r) for j in range(r)])
        return ncn(mrows(m), mcols(m), {(base,): ONE})
    return push_ite(f, m)


def ident(r, c=None):
    c = r if c is None else c
    return mlam(r, c, lambda i, j: ite(eqn(i, j), ONE, ZERO))


def emap1(f, m):
    return push_ite(lambda m: mlam(mrows(m), mcols(m), lambda i, j: f(ment(m, i, j))), m)


def emap2(f, a, b):
    return push_ite(lambda a, b: mlam(mrows(a), mcols(a), lambda i, j: f(ment(a, i, j), ment(b, i, j))),
                    a, b)


def msum(m, f=lambda x: x):
    def g(m):
        if small(m):
            e = [f(x) for x in grid(m).args[2:]]
            return add(*e) if e else ZERO
        r, c = mrows(m), mcols(m)
        if const(c) is not None:
            return add(*[sum_(r, lam(lambda i, j=j: f(ment(m, i, num(j))))) for j in range(int(const(c)))])
        if const(r) is not None:
            return add(*[sum_(c, lam(lambda j, i=i: f(ment(m, num(i), j)))) for i in range(int(const(r)))])
        return sum_(r, lam(lambda i: sum_(c, lam(lambda j: f(ment(m, i, j))))))
    return push_ite(g, m)


def many(m):
    """some entry of a boolean matrix is true"""
    def g(m):
        if small(m):
            return or_(*[truth(x) for x in grid(m).args[2:]])
        r, c = mrows(m), mcols(m)

        def any_(n, l):
            return lt(first(n, l), n)
        if const(c) is not None:
            return or_(*[any_(r, lam(lambda i, j=j: truth(ment(m, i, num(j)))))
                         for j in range(int(const(c)))])
        return any_(r, lam(lambda i: any_(c, lam(lambda j: truth(ment(m, i, j))))))
    return push_ite(g, m)


def truth(x):
    return x if is_bool(x) else (not_(cmp0('eq', x)) if x.op == 'poly' else coerce('p', x))


def reflect_mat(v, r, c):
    if v.op in ('mat', 'mlam', 'nc', 'undef'):
        return v
    if v.op == 'ite':
        return ite(v.args[0], reflect_mat(v.args[1], r, c), reflect_mat(v.args[2], r, c))
    if r is not None and c is not None:
        return mat(r, c, [coerce('r', mk_raw('ent', (v, num(i), num(j))))
                          for i in range(r) for j in range(c)])
    R = num(r) if r is not None else atom(mk_raw('rows', (v,)))
    C = num(c) if c is not None else atom(mk_raw('cols', (v,)))
    return ncn(R, C, {(v,): ONE})


def vec_ent(v, i):
    if v.op == 'ite':
        return ite(v.args[0], vec_ent(v.args[1], i), vec_ent(v.args[2], i))
    if v.op == 'undef':
        return v
    if mcols(v) is ONE:
        return ment(v, i, ZERO)
    if mrows(v) is ONE:
        return ment(v, ZERO, i)
    # column-major linear index: unsupported unless a vector
    return ment(v, i, ZERO)


def vec_set(m, i, x):
    if mcols(m) is ONE or mrows(m) is not ONE:
        return ent_set(m, i, ZERO, x)
    return ent_set(m, ZERO, i, x)


def ent_set(m, i, j, x):
    return mlam(mrows(m), mcols(m),
                lambda a, b: ite(and_(eqn(a, i), eqn(b, j)), x, ment(m, a, b)))


def blk_get(m, r0, c0, nr, nc_):
    def f(m):
        return mlam(nr, nc_, lambda i, j: ment(m, add(i, r0), add(j, c0)))
    if r0 is ZERO and c0 is ZERO and nr is mrows(m) and nc_ is mcols(m):
        return m
    return push_ite(f, m)


def blk_set(m, r0, c0, nr, nc_, x):
    # orient vectors
    if mrows(x) is not nr or mcols(x) is not nc_:
        if mrows(x) is nc_ and mcols(x) is nr or (nr is ONE and mcols(x) is ONE) or \
                (nc_ is ONE and mrows(x) is ONE and mcols(x) is not ONE):
            if nr is not nc_:
                x = mT(x)
    if m.op == 'uninit' or m.op == 'undef':
        raise Unsupported('block of unsized matrix')

    def f(a, b):
        ins = and_(ge(a, r0), lt(a, add(r0, nr)), ge(b, c0), lt(b, add(c0, nc_)))
        if ins is FALSE:
            return ment(m, a, b)
        return ite(ins, ment(x, sub(a, r0), sub(b, c0)), ment(m, a, b))
    return mlam(mrows(m), mcols(m), f)


def view_get(I, v, a):
    k = a[0]
    if v.op == 'ite':
        return ite(v.args[0], view_get(I, v.args[1], a), view_get(I, v.args[2], a))
    if v.op == 'undef':
        return v
    if k == 'blk':
        return blk_get(v, *a[1:])
    if k == 'ent':
        return ment(v, a[1], a[2])
    if k == 'T':
        return mT(v)
    if k == 'diag':
        n = TM.min_(mrows(v), mcols(v))
        return mlam(n, ONE, lambda i, j: ment(v, i, i))
    if k == 'qvec':
        return mat(3, 1, [fld(v, 'x'), fld(v, 'y'), fld(v, 'z')])
    if k == 'qcoef':
        return mat(4, 1, [fld(v, n) for n in ('x', 'y', 'z', 'w')])
    if k == 'map':
        return v
    if k == 'buf':
        return mlam(a[2], ONE, lambda i, j: coerce('r', sel(v, add(i, a[1]))))
    if k == 'isomat':
        R, t = fld(v, 'R'), fld(v, 't')
        return mat(4, 4, [ment(R, num(i), num(j)) if j < 3 else ment(t, num(i), ZERO)
                          for i in range(3) for j in range(4)] + [ZERO, ZERO, ZERO, ONE])
    raise Unsupported('view ' + k)


def view_set(I, v, a, x):
    k = a[0]
    if v.op == 'ite':
        return ite(v.args[0], view_set(I, v.args[1], a, x), view_set(I, v.args[2], a, x))
    if k == 'blk':
        return blk_set(v, *a[1:], x)
    if k == 'ent':
        return ent_set(v, a[1], a[2], x)
    if k == 'T':
        return mT(x)
    if k == 'diag':
        return mlam(mrows(v), mcols(v), lambda i, j: ite(eqn(i, j), ment(x, i, ZERO), ment(v, i, j)))
    if k == 'qvec':
        return quat(fld(v, 'w'), *[ment(x, num(i), ZERO) for i in range(3)])
    if k == 'qcoef':
        return quat(ment(x, num(3), ZERO), *[ment(x, num(i), ZERO) for i in range(3)])
    if k == 'map':
        return x
    if k == 'buf':
        return seq(length(v), lambda i: ite(and_(ge(i, a[1]), lt(i, add(a[1], a[2]))),
                                            ment(x, sub(i, a[1]), ZERO), sel(v, i)))
    if k == 'isomat':
        return struct('Iso', [('R', blk_get(x, ZERO, ZERO, num(3), num(3))),
                              ('t', blk_get(x, ZERO, num(3), num(3), ONE))])
    raise Unsupported('assign to view ' + k)


def mat_bound(I, node, v, i, j, nr=ONE, nc=ONE):
    """coefficients i.. and j.. lie within the matrix"""
    try:
        R, C = mrows(v), mcols(v)
    except (Unsupported, AttributeError, TypeError):
        return
    if R is None or C is None:
        return
    I.bound(and_(ge(i, ZERO), ge(nr, ZERO), le(add(i, nr), R), ge(j, ZERO), ge(nc, ZERO), le(add(j, nc), C)), node,
            'coefficients of a matrix')


def view(I, obj, *a):
    if a[0] == 'blk':
        mat_bound(I, I.at, I.val(obj) if isinstance(obj, LV) else obj, *a[1:])
    if isinstance(obj, LV):
        return LV(extend(obj.p, sx(*a)))
    return view_get(I, obj, a)


def eigen_default(I, e):
    if e[0] == 'M':
        r, c = e[1], e[2]
        nm = I.blank_var('undefmat')
        if r is not None and c is not None:
            return mat(r, c, [coerce('r', mk_raw('ent', (nm, num(i), num(j))))
                              for i in range(r) for j in range(c)])
        return mat(r or 0, c if c is not None else 0, [])
    nm = I.blank_var('undefq')
    if e[0] == 'Q':
        return quat(*[coerce('r', fld(nm, n)) for n in QF])
    if e[0] == 'I':
        return struct('Iso', [('R', reflect_mat(fld(nm, 'R'), 3, 3)),
                              ('t', reflect_mat(fld(nm, 't'), 3, 1))])
    return nm


def eigen_convert(I, v, e):
    """implicit conversion on assignment/initialisation to an Eigen type"""
    if v.op == 'ite':
        return ite(v.args[0], eigen_convert(I, v.args[1], e), eigen_convert(I, v.args[2], e))
    if e[0] == 'M':
        if v.op == 'struct' and v.args[0] == 'Iso':
            return view_get(I, v, ('isomat',))
        if v.op == 'struct' and v.args[0] == 'Quat':
            return quat_R(v)
        if v.op == 'struct' and v.args[0] == 'AA':
            return quat_R(aa_quat(v))
        if ismat(v) and v.op in ('mat', 'mlam'):
            r, c = e[1], e[2]
            # vectors are transposed to fit
            if c == 1 and mrows(v) is ONE and mcols(v) is not ONE:
                return mT(v)
            if r == 1 and mcols(v) is ONE and mrows(v) is not ONE:
                return mT(v)
            # known extents from the declared type
            if v.op == 'mlam' and (r is not None or c is not None):
                R = num(r) if r is not None else mrows(v)
                C = num(c) if c is not None else mcols(v)
                if R is not mrows(v) or C is not mcols(v):
                    return mlam(R, C, lambda i, j: ment(v, i, j))
        if v.op == 'nc':
            r, c = e[1], e[2]
            R = num(r) if r is not None else mrows(v)
            C = num(c) if c is not None else mcols(v)
            if R is not mrows(v) or C is not mcols(v):
                if r is not None and c is not None:
                    return mlam(R, C, lambda i, j: ment(v, i, j))
                return ncn(R, C, to_words(v))
        return v
    if e[0] == 'Q':
        if v.op == 'struct' and v.args[0] == 'AA':
            return aa_quat(v)
        if ismat(v):
            return mat_quat(v)
    if e[0] == 'I':
        if ismat(v):
            return view_set(I, v, ('isomat',), v)
    return v


def aa_quat(v):
    a = fld(v, 'angle')
    ax = fld(v, 'axis')
    s, c = TM.sin(scale(a, Q(1, 2))), TM.cos(scale(a, Q(1, 2)))
    return quat(c, *[mul(s, ment(ax, num(i), ZERO)) for i in range(3)])


def mat_quat(m):
    """quaternion of a rotation matrix (uninterpreted except on matrices of quaternions)"""
    g = grid(m)
    b = mk_raw('app', ('quat_of_matrix', g))
    return quat(*[coerce('r', fld(b, n)) for n in QF])


def quat_R(q):
    w, x, y, z = [qf(q, n) for n in QF]
    two = num(2)

    def m2(a, b):
        return mul(two, mul(a, b))
    return mat(3, 3, [
        sub(ONE, add(m2(y, y), m2(z, z))), sub(m2(x, y), m2(z, w)), add(m2(x, z), m2(y, w)),
        add(m2(x, y), m2(z, w)), sub(ONE, add(m2(x, x), m2(z, z))), sub(m2(y, z), m2(x, w)),
        sub(m2(x, z), m2(y, w)), add(m2(y, z), m2(x, w)), sub(ONE, add(m2(x, x), m2(y, y)))])


def qf(q, n):
    v = fld(q, n)
    return v if v.op == 'poly' else coerce('r', v)


def quat_mul(a, b):
    if a.op == 'undef' or b.op == 'undef':
        return UNDEF
    aw, ax, ay, az = [qf(a, n) for n in QF]
    bw, bx, by, bz = [qf(b, n) for n in QF]
    return quat(
        sub(mul(aw, bw), add(mul(ax, bx), mul(ay, by), mul(az, bz))),
        add(mul(aw, bx), mul(ax, bw), sub(mul(ay, bz), mul(az, by))),
        add(mul(aw, by), mul(ay, bw), sub(mul(az, bx), mul(ax, bz))),
        add(mul(aw, bz), mul(az, bw), sub(mul(ax, by), mul(ay, bx))))


def quat_n2(q):
    return add(*[mul(qf(q, n), qf(q, n)) for n in QF])


def cross(a, b):
    A = [vec_ent(a, num(i)) for i in range(3)]
    B = [vec_ent(b, num(i)) for i in range(3)]
    r = [sub(mul(A[(i + 1) % 3], B[(i + 2) % 3]), mul(A[(i + 2) % 3], B[(i + 1) % 3]))
         for i in range(3)]
    return mat(3, 1, r)


def iso_mul(a, b):
    R = mmul(fld(a, 'R'), fld(b, 'R'))
    t = madd(mmul(fld(a, 'R'), fld(b, 't')), fld(a, 't'))
    return struct('Iso', [('R', R), ('t', t)])


# ------------------------------------------------------------------ dispatch helpers
def drill(node):
    while node is not None and node['k'] in ('upcast', 'temp', 'cast'):
        node = node['e']
    return node


def nodes_of(node):
    """(obj node, arg nodes) of a call"""
    if node['k'] == 'mcall':
        return node['obj'], node['args']
    if node['k'] == 'ocall':
        fn = node.get('fn')
        if fn and fn.get('mem') and not fn.get('st'):
            return node['args'][0], node['args'][1:]
        return None, node['args']
    return None, node.get('args', [])


def typed_val(I, x, node):
    v = I.val(x)
    if node is not None and v.op not in ('poly', 'mat', 'mlam', 'nc', 'struct', 'true', 'false'):
        d = drill(node)
        if d is not None and 't' in d:
            v = I.reflect(v, d['t'])
    return v


def objv(I, node, obj):
    on, _ = nodes_of(node)
    return typed_val(I, obj, on)


def argv(I, node, args, i):
    _, an = nodes_of(node)
    return typed_val(I, args[i], an[i] if i < len(an) else None)


def numarg(I, node, args, i):
    v = argv(I, node, args, i)
    if v.op == 'poly' or v.op == 'undef':
        return v
    if is_bool(v):
        return b2n(v)
    return coerce('z', v)


M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def lookup(I, fn, obj):
    q = fn['q']
    m = M.get(q)
    if m is not None:
        return m
    n = fn['n']
    if q.startswith('Eigen::') or q.startswith('std::operator') is False and \
            q.startswith('Eigen'):
        return eigen_call
    if q.startswith('ranges::') or q.startswith('cpp20::') or q.startswith('concepts::'):
        return ranges_call
    if q.startswith('std::') or q.startswith('__gnu_cxx::') or q.startswith('boost::') or \
            q.startswith('__gnu_debug'):
        return std_call
    if q.startswith('fmt::'):
        return fmt_call
    if fn.get('lam'):
        return None
    if n == '__verif_assume':
        return assume_call
    if n == '__verif_assert':
        return assert_call
    if n in VERIF:
        return VERIF[n]
    return None


def assume_call(I, node, fn, obj, args):
    v = I.val(args[0])
    I.assumes.append(v if is_bool(v) else truth(v))
    return UNIT


def assert_call(I, node, fn, obj, args):
    v = I.val(args[0])
    v = v if is_bool(v) else truth(v)
    if I.alive:
        I.guard_exit(not_(v), 'abort', UNIT)
    return UNIT


def v_derivative(I, node, fn, obj, args):
    e, x = argv(I, node, args, 0), argv(I, node, args, 1)
    a = as_atom(x)
    if a is None:
        raise Unsupported('derivative with respect to a non-variable')
    return diff(e, a)


def v_unspecified(I, node, fn, obj, args):
    return UNDEF


def v_opaque(I, node, fn, obj, args):
    v = argv(I, node, args, 0)
    if v.op != 'str':
        raise Unsupported('__verif_opaque of ' + show(v))
    I.opaque_q.add(v.args[0])
    return UNIT


def v_keep(I, node, fn, obj, args):
    """retain the elements of a sequence that satisfy a predicate"""
    o = LV(args[0].p)
    s = I.val(o)
    src = LV(I.new_loc(s, None, 'all'))
    out = LV(I.new_loc(mk_raw('list', ()), None, 'kept'))
    f = args[1]

    def body(k):
        x = LV(extend(src.p, si(k)))
        c = truth(I.val(I.call_value(node, f, [x])))
        xv = I.val(x)
        I.branch(c, lambda: I.store_at(out.p, seq_append(I.val(out), xv)), lambda: None)
    bool_loop(I, node, length(s), body)
    I.store_at(o.p, I.val(out))
    return UNIT


def v_opaque_keep(I, node, fn, obj, args):
    v = argv(I, node, args, 0)
    I.opaque_q.add('keep:' + v.args[0])
    return v_opaque(I, node, fn, obj, args)


def v_opaque_throws(I, node, fn, obj, args):
    v, t = argv(I, node, args, 0), argv(I, node, args, 1)
    if v.op != 'str' or t.op != 'str':
        raise Unsupported('__verif_opaque_throwing of ' + show(v))
    I.opaque_q.add('throws:%s=%s' % (v.args[0], t.args[0]))
    return v_opaque(I, node, fn, obj, args)


def v_opaque_same(I, node, fn, obj, args):
    v = argv(I, node, args, 0)
    I.opaque_q.add('same:' + v.args[0])
    return v_opaque(I, node, fn, obj, args)


VERIF = {'__verif_opaque_throwing': v_opaque_throws, '__verif_opaque_in_place': v_opaque_keep, '__verif_opaque_pointwise': v_opaque_same, '__verif_keep': v_keep, '__verif_opaque': v_opaque, '__verif_derivative': v_derivative, '__verif_unspecified': v_unspecified}

_DIFF = {}


def diff(e, x):
    key = (e, x)
    r = _DIFF.get(key)
    if r is not None:
        return r
    out = ZERO
    for m, c in e.args:
        for i, (a, k) in enumerate(m):
            d = diff_atom(a, x)
            if d is ZERO:
                continue
            rest = list(m[:i]) + list(m[i + 1:])
            t = num(c * k)
            for b, kk in rest:
                t = mul(t, powi(atom(b), kk))
            t = mul(t, powi(atom(a), k - 1))
            out = add(out, mul(t, d))
    _DIFF[key] = out
    return out


def diff_atom(a, x):
    if a is x:
        return ONE
    if not contains_t(a, x):
        return ZERO
    if a.op == 'sqrt':
        return mul(diff(a.args[0], x), scale(inv(atom(a)), Q(1, 2)))
    if a.op == 'inv':
        return neg(mul(diff(a.args[0], x), powi(atom(a), 2)))
    if a.op == 'sin':
        return mul(TM.cos(a.args[0]), diff(a.args[0], x))
    if a.op == 'cos':
        return neg(mul(TM.sin(a.args[0]), diff(a.args[0], x)))
    if a.op == 'ite':
        return ite(a.args[0], diff(a.args[1], x), diff(a.args[2], x))
    if a.op == 'exp':
        return mul(atom(a), diff(a.args[0], x))
    raise Unsupported('derivative of ' + a.op)


def contains_t(t, x):
    return DC.contains(t, x)


# ------------------------------------------------------------------ Eigen
SCALAR_BIN = {'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator/': '/'}


def is_array(fn):
    return 'Array' in fn['q'].split('::operator')[0] or 'Array' in fn['q']


def eigen_call(I, node, fn, obj, args):
    n = fn['n']
    f = EIG.get(n)
    I.at = node
    if n.startswith('operator') and obj is None and args:
        # free operators: treat the first operand as the object
        pass
    if f is not None:
        return f(I, node, fn, obj, args)
    if fn.get('st') or obj is None:
        f = EIGS.get(n)
        if f is not None:
            return f(I, node, fn, obj, args)
    return NotImplemented


EIG = {}
EIGS = {}


def eig(*ns):
    def d(f):
        for n in ns:
            EIG[n] = f
        return f
    return d


def eigs(*ns):
    def d(f):
        for n in ns:
            EIGS[n] = f
        return f
    return d


def retdims(I, fn, node):
    """compile-time size of the class a static factory belongs to"""
    rt = I.prog.ty(fn['rt'])
    for cand in (node.get('t'),):
        pass
    # the class is DenseBase<Derived>
    cls = fn.get('cls')
    t = I.prog.ty(cls) if cls is not None else None
    e = None
    if t is not None:
        s = t['s']
        e = parse_dims(s)
    if e is None:
        e = parse_dims(rt['s'])
    return e


def parse_dims(s):
    import re
    m = re.search(r'Eigen::(?:Matrix|Array)<[^,<>]+, (-?\d+), (-?\d+)', s)
    if m:
        r, c = int(m.group(1)), int(m.group(2))
        return (None if r < 0 else r, None if c < 0 else c)
    return None


def factory(I, node, fn, args, f):
    d = dims_of_cls(I, fn)
    if d is None:
        return NotImplemented
    r, c = d
    a = [numarg(I, node, args, i) for i in range(len(args))]
    return d, a


def dims_of_cls(I, fn):
    cls = fn.get('cls')
    t = I.prog.ty(cls) if cls is not None else None
    if t is None:
        return None
    for a in t.get('args', []):
        if 'T' in a:
            e = I.prog.eigen(a['T'])
            if e and e[0] == 'M':
                return e[1], e[2]
    return None


def cls_derived(I, fn):
    cls = fn.get('cls')
    t = I.prog.ty(cls) if cls is not None else None
    if t is None:
        return None
    e = I.prog.eigen(cls)
    if e:
        return e
    for a in t.get('args', []):
        if 'T' in a:
            e = I.prog.eigen(a['T'])
            if e:
                return e
    return None


def sized(I, node, fn, args, nextra):
    """(rows, cols, extra args) of a sized factory such as Zero(r, c) / Constant(n, v)"""
    d = dims_of_cls(I, fn)
    if d is None:
        return None
    r, c = d
    a = [numarg(I, node, args, i) for i in range(len(args))]
    ns = len(a) - nextra
    if ns == 0:
        return num(r), num(c), a
    if ns == 1:
        if c == 1:
            return a[0], ONE, a[1:]
        if r == 1:
            return ONE, a[0], a[1:]
        return a[0], a[0], a[1:]
    return a[0], a[1], a[2:]


@eigs('Zero')
def _(I, node, fn, obj, args):
    s = sized(I, node, fn, args, 0)
    if s is None:
        return NotImplemented
    return mlam(s[0], s[1], lambda i, j: ZERO)


@eigs('Ones')
def _(I, node, fn, obj, args):
    s = sized(I, node, fn, args, 0)
    return mlam(s[0], s[1], lambda i, j: ONE)


@eigs('Constant')
def _(I, node, fn, obj, args):
    s = sized(I, node, fn, args, 1)
    return mlam(s[0], s[1], lambda i, j: s[2][0])


@eigs('Identity')
def _(I, node, fn, obj, args):
    e = cls_derived(I, fn)
    if e and e[0] == 'Q':
        return quat(ONE, ZERO, ZERO, ZERO)
    if e and e[0] == 'I':
        return iso_id()
    if 'Quaternion' in fn['q']:
        return quat(ONE, ZERO, ZERO, ZERO)
    s = sized(I, node, fn, args, 0)
    if s is None:
        return NotImplemented
    return ident(s[0], s[1])


def iso_id():
    return struct('Iso', [('R', ident(num(3))), ('t', mat(3, 1, [ZERO] * 3))])


def unit(k):
    def f(I, node, fn, obj, args):
        d = dims_of_cls(I, fn)
        n = (d[0] if d and d[0] is not None else 3)
        return mat(n, 1, [ONE if i == k else ZERO for i in range(n)])
    return f


EIGS['UnitX'] = unit(0)
EIGS['UnitY'] = unit(1)
EIGS['UnitZ'] = unit(2)


@eigs('Map')
def _(I, node, fn, obj, args):
    v = I.val(args[0])
    s = sized(I, node, fn, args[1:], 0) if len(args) > 1 else None
    if v.op == 'iter':
        base, off = v.args[0], v.args[1]
        n = I.val(args[1]) if len(args) > 1 else None
        cont = I.load(base)
        return mlam(n, ONE, lambda i, j: coerce('r', sel(cont, add(i, off))))
    if v.op == 'ptr' and len(v.args) > 1 and v.args[-1].op == 'si' and len(args) == 2:
        base = v.args[:-1]
        return LV(mk_raw('ptr', base + (sx('buf', v.args[-1].args[0], I.val(args[1])),)))
    return NotImplemented


@eigs('seqN')
def _(I, node, fn, obj, args):
    a = [numarg(I, node, args, i) for i in range(len(args))]
    return struct('seqN', [('first', a[0]), ('size', a[1]), ('incr', a[2] if len(a) > 2 else ONE)])


@eigs('seq')
def _(I, node, fn, obj, args):
    a = [numarg(I, node, args, i) for i in range(len(args))]
    return struct('seqN', [('first', a[0]), ('size', add(sub(a[1], a[0]), ONE)), ('incr', ONE)])


def isq(v):
    return v.op == 'struct' and v.args[0] == 'Quat'


def isiso(v):
    return v.op == 'struct' and v.args[0] == 'Iso'


@eig('rows')
def _(I, node, fn, obj, args):
    return mrows(objv(I, node, obj))


@eig('cols')
def _(I, node, fn, obj, args):
    return mcols(objv(I, node, obj))


@eig('size')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    return mul(mrows(v), mcols(v))


@eig('transpose', 'adjoint')
def _(I, node, fn, obj, args):
    objv(I, node, obj)
    if isinstance(obj, LV):
        v = objv(I, node, obj)
        return mT(v)
    return mT(objv(I, node, obj))


@eig('array', 'matrix', 'eval', 'noalias', 'derived', 'const_cast_derived', 'nestedExpression')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    if isiso(v) and fn['n'] == 'matrix':
        return view(I, obj, 'isomat')
    return obj if isinstance(obj, LV) else v


@eig('finished')
def _(I, node, fn, obj, args):
    v = I.val(obj)
    if v.op == 'comma':
        return LV(v.args[0])
    return obj


@eig('cast')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    ta = fn.get('targs', [])
    k = I.prog.scalar(ta[0]['T']) if ta and 'T' in ta[0] else 'r'
    if isq(v) or isiso(v):
        return v
    if k == 'rf':
        return emap1(f32, v)
    if k == 'z':
        return emap1(trunc, v)
    return v


@eig('inverse')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    if isq(v):
        return quat_inv(v)
    if isiso(v):
        RT = mT(fld(v, 'R'))
        return struct('Iso', [('R', RT), ('t', mscale(mmul(RT, fld(v, 't')), num(-1)))])
    return minv(v)


def quat_inv(v):
    n2 = quat_n2(v)
    return quat(div(qf(v, 'w'), n2), *[neg(div(qf(v, c), n2)) for c in 'xyz'])


@eig('conjugate')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    if isq(v):
        return quat(qf(v, 'w'), *[neg(qf(v, c)) for c in 'xyz'])
    return v


@eig('norm', 'stableNorm')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    if isq(v):
        return sqrt(quat_n2(v))
    return sqrt(msum(v, lambda x: mul(x, x)))


@eig('squaredNorm')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    if isq(v):
        return quat_n2(v)
    return msum(v, lambda x: mul(x, x))


@eig('normalized')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    if isq(v):
        n = sqrt(quat_n2(v))
        return quat(*[div(qf(v, c), n) for c in QF])
    n = sqrt(msum(v, lambda x: mul(x, x)))
    return mscale(v, inv(n))


@eig('normalize')
def _(I, node, fn, obj, args):
    r = EIG['normalized'](I, node, fn, obj, args)
    I.store_at(obj.p, r)
    return UNIT


@eig('dot')
def _(I, node, fn, obj, args):
    a, b = objv(I, node, obj), argv(I, node, args, 0)
    if isq(a):
        return add(*[mul(qf(a, c), qf(b, c)) for c in QF])

    def f(a, b):
        n = mrows(a) if mcols(a) is ONE or mrows(a) is not ONE else mcols(a)
        if const(n) is not None:
            return add(*[mul(vec_ent(a, num(i)), vec_ent(b, num(i))) for i in range(int(const(n)))])
        return sum_(n, lam(lambda i: mul(vec_ent(a, i), vec_ent(b, i))))
    return push_ite(f, a, b)


@eig('cross')
def _(I, node, fn, obj, args):
    return push_ite(cross, objv(I, node, obj), argv(I, node, args, 0))


@eig('sum')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    if v.op == 'struct' and v.args[0] == 'partial':
        return partial_reduce(v, lambda m: msum(m))
    return msum(v)


@eig('mean')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    f = lambda m: div(msum(m), mul(mrows(m), mcols(m)))   # noqa: E731
    if v.op == 'struct' and v.args[0] == 'partial':
        return partial_reduce(v, f)
    return push_ite(f, v)


@eig('norm_partial')
def _(I, node, fn, obj, args):
    return NotImplemented


def partial_reduce(v, f):
    m, k = fld(v, 'm'), fld(v, 'dir')
    if k.args[0] == 'col':
        return mlam(ONE, mcols(m), lambda i, j: f(blk_get(m, ZERO, j, mrows(m), ONE)))
    return mlam(mrows(m), ONE, lambda i, j: f(blk_get(m, i, ZERO, ONE, mcols(m))))


@eig('colwise')
def _(I, node, fn, obj, args):
    return struct('partial', [('m', objv(I, node, obj)), ('dir', string('col'))])


@eig('rowwise')
def _(I, node, fn, obj, args):
    return struct('partial', [('m', objv(I, node, obj)), ('dir', string('row'))])


@eig('trace')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    return msum(view_get(I, v, ('diag',)))


@eig('determinant')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    return atom(mk_raw('r', (mk_raw('app', ('det', v)),)))


@eig('abs', 'cwiseAbs')
def _(I, node, fn, obj, args):
    return emap1(abs_, objv(I, node, obj if obj is not None else args[0]))


@eig('square', 'cwiseAbs2', 'abs2')
def _(I, node, fn, obj, args):
    return emap1(lambda x: mul(x, x), objv(I, node, obj if obj is not None else args[0]))


@eig('sqrt', 'cwiseSqrt')
def _(I, node, fn, obj, args):
    return emap1(sqrt, objv(I, node, obj if obj is not None else args[0]))


@eig('exp')
def _(I, node, fn, obj, args):
    return emap1(exp, objv(I, node, obj if obj is not None else args[0]))


@eig('cwiseInverse')
def _(I, node, fn, obj, args):
    return emap1(inv, objv(I, node, obj))


@eig('cwiseProduct')
def _(I, node, fn, obj, args):
    return emap2(mul, objv(I, node, obj), argv(I, node, args, 0))


@eig('cwiseQuotient')
def _(I, node, fn, obj, args):
    return emap2(div, objv(I, node, obj), argv(I, node, args, 0))


@eig('cwiseMin', 'min')
def _(I, node, fn, obj, args):
    b = argv(I, node, args, 0)
    if b.op == 'poly':
        return emap1(lambda x: TM.min_(x, b), objv(I, node, obj))
    return emap2(TM.min_, objv(I, node, obj), b)


@eig('cwiseMax', 'max')
def _(I, node, fn, obj, args):
    b = argv(I, node, args, 0)
    if b.op == 'poly':
        return emap1(lambda x: TM.max_(x, b), objv(I, node, obj))
    return emap2(TM.max_, objv(I, node, obj), b)


@eig('maxCoeff', 'minCoeff')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    if args:
        return NotImplemented
    f = TM.max_ if fn['n'] == 'maxCoeff' else TM.min_
    if small(v):
        e = grid(v).args[2:]
        r = e[0]
        for x in e[1:]:
            r = f(r, x)
        return r
    return atom(mk_raw('r', (mk_raw('app', (fn['n'], v)),)))


@eig('isNaN', 'isInf', 'isFinite')
def _(I, node, fn, obj, args):
    nm = fn['n'].lower()
    return emap1(lambda x: fpclass(nm, x), objv(I, node, obj if obj is not None else args[0]))


def fpclass(nm, x):
    if x.op != 'poly':
        return mk_raw('bapp', (nm, x))
    if const(x) is not None:
        return TRUE if nm == 'isfinite' else FALSE
    if nm == 'isfinite':
        return and_(not_(mk_raw('bapp', ('isnan', x))), not_(mk_raw('bapp', ('isinf', x))))
    a = as_atom(x)
    if a is not None and a.op == 'ite':
        return ite(a.args[0], fpclass(nm, a.args[1]), fpclass(nm, a.args[2]))
    return mk_raw('bapp', (nm, x))


@eig('any')
def _(I, node, fn, obj, args):
    return many(objv(I, node, obj))


@eig('all')
def _(I, node, fn, obj, args):
    return not_(many(emap1(lambda x: not_(truth(x)), objv(I, node, obj))))


@eig('count')
def _(I, node, fn, obj, args):
    return msum(emap1(lambda x: b2n(truth(x)), objv(I, node, obj)))


@eig('hasNaN')
def _(I, node, fn, obj, args):
    return many(emap1(lambda x: fpclass('isnan', x), objv(I, node, obj)))


@eig('allFinite')
def _(I, node, fn, obj, args):
    return not_(many(emap1(lambda x: not_(fpclass('isfinite', x)), objv(I, node, obj))))


@eig('asDiagonal')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)

    def f(v):
        n = mrows(v) if mcols(v) is ONE else mcols(v)
        return mlam(n, n, lambda i, j: ite(eqn(i, j), vec_ent(v, i), ZERO))
    return push_ite(f, v)


@eig('toDenseMatrix')
def _(I, node, fn, obj, args):
    return objv(I, node, obj)


@eig('diagonal')
def _(I, node, fn, obj, args):
    return view(I, obj if isinstance(obj, LV) else objv(I, node, obj), 'diag')


def ensure_sized(I, node, obj):
    """objects behind an lvalue are stored with explicit extents"""
    v = I.val(obj)
    on, _ = nodes_of(node)
    w = typed_val(I, obj, on)
    if isinstance(obj, LV):
        if w is not v:
            try:
                for wl in I.wlogs:
                    pass
                saved, I.wlogs = I.wlogs, []
                I.store_at(obj.p, w)
                I.wlogs = saved
            except Unsupported:
                return w
        return obj
    return w


def ta_ints(fn):
    return [int(a['I']) for a in fn.get('targs', []) if 'I' in a]


@eig('block')
def _(I, node, fn, obj, args):
    o = ensure_sized(I, node, obj)
    a = [numarg(I, node, args, i) for i in range(len(args))]
    t = ta_ints(fn)
    if len(t) >= 2 and len(a) == 2:
        nr, nc_ = num(t[0]), num(t[1])
    elif len(a) == 4:
        nr, nc_ = a[2], a[3]
    else:
        return NotImplemented
    return view(I, o, 'blk', a[0], a[1], nr, nc_)


@eig('topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner')
def _(I, node, fn, obj, args):
    o = ensure_sized(I, node, obj)
    v = objv(I, node, obj)
    a = [numarg(I, node, args, i) for i in range(len(args))]
    t = ta_ints(fn)
    if len(a) == 2:
        nr, nc_ = a
    else:
        nr, nc_ = num(t[0]), num(t[1])
    r0 = ZERO if fn['n'].startswith('top') else sub(mrows(v), nr)
    c0 = ZERO if 'Left' in fn['n'] else sub(mcols(v), nc_)
    return view(I, o, 'blk', r0, c0, nr, nc_)


def bandview(which):
    def f(I, node, fn, obj, args):
        o = ensure_sized(I, node, obj)
        v = objv(I, node, obj)
        a = [numarg(I, node, args, i) for i in range(len(args))]
        t = ta_ints(fn)
        R, C = mrows(v), mcols(v)
        n = fn['n']
        if n == 'row':
            return view(I, o, 'blk', a[0], ZERO, ONE, C)
        if n == 'col':
            return view(I, o, 'blk', ZERO, a[0], R, ONE)
        if n in ('topRows', 'bottomRows', 'leftCols', 'rightCols', 'head', 'tail'):
            k = a[0] if a else num(t[0])
            isrow = R is ONE and C is not ONE
            if n in ('topRows',) or n == 'head' and not isrow:
                return view(I, o, 'blk', ZERO, ZERO, k, C)
            if n in ('bottomRows',) or n == 'tail' and not isrow:
                return view(I, o, 'blk', sub(R, k), ZERO, k, C)
            if n in ('leftCols', 'head'):
                return view(I, o, 'blk', ZERO, ZERO, R, k)
            return view(I, o, 'blk', ZERO, sub(C, k), R, k)
        if n in ('segment', 'middleRows', 'middleCols'):
            st = a[0]
            k = a[1] if len(a) > 1 else num(t[0])
            isrow = R is ONE and C is not ONE
            if n == 'middleRows' or n == 'segment' and not isrow:
                return view(I, o, 'blk', st, ZERO, k, C)
            return view(I, o, 'blk', ZERO, st, R, k)
        return NotImplemented
    return f


for _n in ('row', 'col', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'head', 'tail', 'segment',
           'middleRows', 'middleCols'):
    EIG[_n] = bandview(_n)


def coef(k):
    def f(I, node, fn, obj, args):
        v = objv(I, node, obj)
        if isq(v) or 'Quaternion' in fn['q']:
            if isinstance(obj, LV):
                ensure_sized(I, node, obj)
                return LV(extend(obj.p, sf('xyzw'[k])))
            return qf(v, 'xyzw'[k])
        if isinstance(obj, LV):
            ensure_sized(I, node, obj)
            return LV(extend(obj.p, si(num(k))))
        return vec_ent(v, num(k))
    return f


EIG['x'], EIG['y'], EIG['z'], EIG['w'] = coef(0), coef(1), coef(2), coef(3)


@eig('vec')
def _(I, node, fn, obj, args):
    return view(I, obj if isinstance(obj, LV) else objv(I, node, obj), 'qvec')


@eig('coeffs')
def _(I, node, fn, obj, args):
    return view(I, obj if isinstance(obj, LV) else objv(I, node, obj), 'qcoef')


@eig('linear', 'rotation')
def _(I, node, fn, obj, args):
    ensure_sized(I, node, obj)
    if isinstance(obj, LV) and fn['n'] == 'linear':
        return LV(extend(obj.p, sf('R')))
    return fld(objv(I, node, obj), 'R')


@eig('translation')
def _(I, node, fn, obj, args):
    ensure_sized(I, node, obj)
    if isinstance(obj, LV):
        return LV(extend(obj.p, sf('t')))
    return fld(objv(I, node, obj), 't')


@eig('toRotationMatrix')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    if v.op == 'struct' and v.args[0] == 'AA':
        v = aa_quat(v)
    return quat_R(v)


@eig('setIdentity')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    if isq(v):
        r = quat(ONE, ZERO, ZERO, ZERO)
    elif isiso(v):
        r = iso_id()
    else:
        r = ident(mrows(v), mcols(v))
    I.store_at(obj.p, r)
    return obj


@eig('setZero')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    a = [numarg(I, node, args, i) for i in range(len(args))]
    R, C = mrows(v), mcols(v)
    if len(a) == 2:
        R, C = a
    elif len(a) == 1:
        R, C = (a[0], ONE)
    I.store_at(obj.p, mlam(R, C, lambda i, j: ZERO))
    return obj


@eig('setConstant', 'fill')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    a = numarg(I, node, args, len(args) - 1)
    I.store_at(obj.p, mlam(mrows(v), mcols(v), lambda i, j: a))
    return obj


@eig('resize', 'conservativeResize')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    a = [numarg(I, node, args, i) for i in range(len(args))]
    if len(a) == 2:
        R, C = a
    else:
        e = cls_derived(I, fn)
        R, C = (ONE, a[0]) if (e and e[1] == 1) else (a[0], ONE)
    if fn['n'] == 'resize':
        u = I.blank_var('undefmat')
        I.store_at(obj.p, mlam(R, C, lambda i, j: coerce('r', mk_raw('ent', (u, i, j)))))
    else:
        I.store_at(obj.p, mlam(R, C, lambda i, j: ment(v, i, j)))
    return UNIT


@eig('isApprox', 'isZero', 'isIdentity', 'isUnitary')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    return mk_raw('bapp', (fn['n'], v) + tuple(argv(I, node, args, i) for i in range(len(args))))


@eig('data')
def _(I, node, fn, obj, args):
    if isinstance(obj, LV):
        ensure_sized(I, node, obj)
        return mk_raw('iter', (obj.p, ZERO))
    return NotImplemented


@eig('begin', 'cbegin')
def _(I, node, fn, obj, args):
    o = I.materialise(ensure_sized(I, node, obj))
    return mk_raw('iter', (o.p, ZERO))


@eig('end', 'cend')
def _(I, node, fn, obj, args):
    o = I.materialise(ensure_sized(I, node, obj))
    v = I.val(o)
    return mk_raw('iter', (o.p, mul(mrows(v), mcols(v))))


@eig('operator()', 'operator[]', 'coeff', 'coeffRef', 'at')
def _(I, node, fn, obj, args):
    o = ensure_sized(I, node, obj)
    v = objv(I, node, obj)
    if isiso(v):
        a = [numarg(I, node, args, i) for i in range(len(args))]
        m = view_get(I, v, ('isomat',))
        if isinstance(o, LV):
            return LV(extend(extend(o.p, sx('isomat')), sx('ent', a[0], a[1])))
        return ment(m, a[0], a[1])
    a = [argv(I, node, args, i) for i in range(len(args))]
    if len(a) == 1:
        i = a[0]
        if i.op == 'struct' and i.args[0] == 'seqN':
            if mcols(v) is ONE or mrows(v) is not ONE:
                return view(I, o, 'blk', fld(i, 'first'), ZERO, fld(i, 'size'), ONE)
            return view(I, o, 'blk', ZERO, fld(i, 'first'), ONE, fld(i, 'size'))
        i = numarg(I, node, args, 0)
        row = mrows(v) is ONE and mcols(v) is not ONE
        mat_bound(I, node, v, *((ZERO, i) if row else (i, ZERO)))
        if isinstance(o, LV):
            return LV(extend(o.p, mk_raw('si', (i, 'h' if row else 'v'))))
        return vec_ent(v, i)
    if any(x.op == 'struct' for x in a):
        def rng(x, n):
            if x.op == 'struct':
                return fld(x, 'first'), fld(x, 'size')
            return x, ONE
        r0, nr = rng(a[0], None)
        c0, nc_ = rng(a[1], None)
        return view(I, o, 'blk', r0, c0, nr, nc_)
    i, j = numarg(I, node, args, 0), numarg(I, node, args, 1)
    mat_bound(I, node, v, i, j)
    if isinstance(o, LV):
        return LV(extend(o.p, sx('ent', i, j)))
    return ment(v, i, j)


def two(I, node, fn, obj, args):
    if obj is not None:
        if args:
            return objv(I, node, obj), argv(I, node, args, 0)
        return objv(I, node, obj), None
    if len(args) == 2:
        return argv(I, node, args, 0), argv(I, node, args, 1)
    return argv(I, node, args, 0), None


def broadcast(part, v, sign):
    m = fld(part, 'm')
    row = fld(part, 'dir').args[0] == 'row'
    f = lambda i, j: ment(v, ZERO, j) if row else ment(v, i, ZERO)   # noqa: E731
    return mlam(mrows(m), mcols(m), lambda i, j: add(ment(m, i, j), mul(num(sign), f(i, j))))


def ispartial(v):
    return v.op == 'struct' and v.args[0] == 'partial'


def as_scalar(v):
    return v.op == 'poly' or is_bool(v) or v.op in ('z', 'r')


@eig('operator+')
def _(I, node, fn, obj, args):
    a, b = two(I, node, fn, obj, args)
    if b is None:
        return a
    if as_scalar(b):
        return emap1(lambda x: add(x, b), a)
    if as_scalar(a):
        return emap1(lambda x: add(x, a), b)
    if isq(a):
        return NotImplemented
    if ispartial(a):
        return broadcast(a, b, 1)
    return madd(a, b)


@eig('operator-')
def _(I, node, fn, obj, args):
    a, b = two(I, node, fn, obj, args)
    if b is None:
        return mscale(a, num(-1))
    if as_scalar(b):
        return emap1(lambda x: sub(x, b), a)
    if as_scalar(a):
        return emap1(lambda x: sub(a, x), b)
    if ispartial(a):
        return broadcast(a, b, -1)
    return madd(a, b, -1)


@eig('operator*')
def _(I, node, fn, obj, args):
    a, b = two(I, node, fn, obj, args)
    return eig_mul(a, b, fn)


def is_aa(v):
    return v.op == 'struct' and v.args[0] == 'AA'


def eig_mul(a, b, fn=None):
    if a.op == 'undef' or b.op == 'undef':
        return UNDEF
    if a.op == 'ite' and a.args[1].op == 'struct' or a.op == 'ite' and a.args[2].op == 'struct':
        return ite(a.args[0], eig_mul(a.args[1], b, fn), eig_mul(a.args[2], b, fn))
    if as_scalar(a) and as_scalar(b):
        return mul(a, b)
    if as_scalar(b):
        return mscale(a, b)
    if as_scalar(a):
        return mscale(b, a)
    if is_aa(a):
        a = aa_quat(a)
    if is_aa(b):
        b = aa_quat(b)
    if isq(a) and isq(b):
        return quat_mul(a, b)
    if isq(a) and ismat(b):
        return mmul(quat_R(a), b)
    if isiso(a) and isiso(b):
        return iso_mul(a, b)
    if isiso(a) and ismat(b):
        if const(mrows(b)) == 4:
            return mmul(view_get(None, a, ('isomat',)), b)
        return madd(mmul(fld(a, 'R'), b), fld(a, 't'))
    if isiso(a) and isq(b):
        return iso_mul(a, struct('Iso', [('R', quat_R(b)), ('t', mat(3, 1, [ZERO] * 3))]))
    if isiso(b):
        if ismat(a) and const(mrows(a)) == 3:
            return struct('Iso', [('R', mmul(a, fld(b, 'R'))), ('t', mmul(a, fld(b, 't')))])
        if isq(a):
            R = quat_R(a)
            return struct('Iso', [('R', mmul(R, fld(b, 'R'))), ('t', mmul(R, fld(b, 't')))])
    if isq(b) and ismat(a):
        return mmul(a, quat_R(b))
    if fn is not None and 'ArrayBase' in fn['q']:
        return emap2(mul, a, b)
    if a.op == 'struct' and a.args[0] == 'Trl':
        if isq(b):
            return struct('Iso', [('R', quat_R(b)), ('t', fld(a, 't'))])
        if isiso(b):
            return struct('Iso', [('R', fld(b, 'R')), ('t', madd(fld(a, 't'), fld(b, 't')))])
    if not (ismat(a) and ismat(b)):
        raise Unsupported('Eigen product of %s and %s' % (a.op, b.op))
    return mmul(a, b)


@eig('operator/')
def _(I, node, fn, obj, args):
    a, b = two(I, node, fn, obj, args)
    if as_scalar(b):
        return mscale(a, inv(b))
    if as_scalar(a):
        return emap1(lambda x: div(a, x), b)
    return emap2(div, a, b)


def compound(op):
    def f(I, node, fn, obj, args):
        a, b = objv(I, node, obj), argv(I, node, args, 0)
        if op == '+':
            r = emap1(lambda x: add(x, b), a) if as_scalar(b) else madd(a, b)
        elif op == '-':
            r = emap1(lambda x: sub(x, b), a) if as_scalar(b) else madd(a, b, -1)
        elif op == '*':
            r = eig_mul(a, b, fn)
        else:
            r = mscale(a, inv(b)) if as_scalar(b) else emap2(div, a, b)
        I.store_at(obj.p, r)
        return obj
    return f


for _o in '+-*/':
    EIG['operator%s=' % _o] = compound(_o)


@eig('operator=')
def _(I, node, fn, obj, args):
    v = argv(I, node, args, 0)
    if not isinstance(obj, LV):
        return NotImplemented
    on, _an = nodes_of(node)
    d = drill(on)
    e = I.prog.eigen(d['t']) if d is not None else None
    if e:
        v = eigen_convert(I, v, e)
    else:
        ensure_sized(I, node, obj)
    I.store_at(obj.p, v)
    return obj


def ecmp(op):
    def f(I, node, fn, obj, args):
        a, b = two(I, node, fn, obj, args)
        fs = {'<': lt, '>': gt, '<=': le, '>=': ge, '==': eqn, '!=': lambda x, y: not_(eqn(x, y))}
        g = fs[op]
        if as_scalar(b):
            return emap1(lambda x: g(x, b), a)
        if as_scalar(a):
            return emap1(lambda x: g(a, x), b)
        if op in ('==', '!=') and 'Array' not in fn['q']:
            e = emap2(lambda x, y: not_(eqn(x, y)), a, b)
            ne = many(e)
            return ne if op == '!=' else not_(ne)
        return emap2(g, a, b)
    return f


for _o in ('<', '>', '<=', '>=', '==', '!='):
    EIG['operator' + _o] = ecmp(_o)


@eig('operator&&', 'operator||')
def _(I, node, fn, obj, args):
    a, b = two(I, node, fn, obj, args)
    f = and_ if fn['n'] == 'operator&&' else or_
    return emap2(lambda x, y: f(truth(x), truth(y)), a, b)


@eig('operator!')
def _(I, node, fn, obj, args):
    return emap1(lambda x: not_(truth(x)), objv(I, node, obj))


@eig('operator<<')
def _(I, node, fn, obj, args):
    if obj is None:
        return args[0]       # stream output
    ensure_sized(I, node, obj)
    st = comma_start(I, obj.p)
    return comma_put(I, st, argv(I, node, args, 0))


def comma_start(I, p):
    return mk_raw('comma', (p, ZERO, ZERO, ZERO))   # ptr, row, col, rows of the current block


def comma_put(I, st, v):
    p, r, c, h = st.args
    m = I.load(p)
    C = mcols(m)
    if v.op == 'poly' or is_bool(v):
        v = mat(1, 1, [v if v.op == 'poly' else b2n(v)])
    if c is C:
        r, c, h = add(r, h), ZERO, ZERO
    if c is ZERO:
        h = mrows(v)
    I.store_at(p, blk_set(m, r, c, mrows(v), mcols(v), v))
    return mk_raw('comma', (p, r, add(c, mcols(v)), h))


@eig('operator,')
def _(I, node, fn, obj, args):
    st = I.val(obj)
    if st.op != 'comma':
        return NotImplemented
    return comma_put(I, st, argv(I, node, args, 0))


# decompositions stay uninterpreted
def decomp(nm):
    def f(I, node, fn, obj, args):
        v = objv(I, node, obj)
        return mk_raw('decomp', (nm, v))
    return f


for _n in ('llt', 'ldlt', 'householderQr', 'colPivHouseholderQr', 'fullPivHouseholderQr', 'lu',
           'partialPivLu', 'fullPivLu', 'jacobiSvd', 'bdcSvd', 'completeOrthogonalDecomposition'):
    EIG[_n] = decomp(_n)


@eig('solve')
def _(I, node, fn, obj, args):
    d = I.val(obj)
    b = argv(I, node, args, 0)
    if negative(b):  # the solution is linear in the right-hand side
        x = solution(I, d, mscale(b, num(-1)))
        return mscale(x, num(-1))
    return solution(I, d, b)


def negative(m):
    """whether the leading coefficient of a matrix is negative (a canonical sign)"""
    if m.op == 'mat':
        ps = m.args[2:]
    elif m.op == 'nc':
        ps = [c for w, c in sorted(to_words(m).items(), key=lambda x: str(x[0]))]
    else:
        return False
    for p in ps:
        if p.op != 'poly':
            return False
        l = next((c for _, c in p.args), None)
        if l is not None:
            return l < 0
    return False


def solution(I, d, b):
    if d.op == 'decomp':
        A = d.args[1]
        t = mk_raw('app', ('solve:' + d.args[0], A, b))
    else:
        A = None
        t = mk_raw('app', ('solve', d, b))
    R = mcols(A) if A is not None else atom(mk_raw('rows', (t,)))
    C = mcols(b)
    return mlam(R, C, lambda i, j: coerce('r', mk_raw('ent', (t, i, j))))


@eig('compute', 'computeDirect')
def _(I, node, fn, obj, args):
    v = argv(I, node, args, 0)
    r = mk_raw('decomp', (fn['n'], v))
    if isinstance(obj, LV):
        I.store_at(obj.p, r)
    return obj


@eig('eigenvalues')
def _(I, node, fn, obj, args):
    d = I.val(obj)
    A = d.args[1] if d.op == 'decomp' else None
    t = mk_raw('app', ('eigenvalues', d))
    n = mrows(A) if A is not None else atom(mk_raw('rows', (t,)))
    return mlam(n, ONE, lambda i, j: coerce('r', mk_raw('ent', (t, i, j))))


@eig('eigenvectors')
def _(I, node, fn, obj, args):
    d = I.val(obj)
    A = d.args[1] if d.op == 'decomp' else None
    t = mk_raw('app', ('eigenvectors', d))
    n = mrows(A) if A is not None else atom(mk_raw('rows', (t,)))
    return mlam(n, n, lambda i, j: coerce('r', mk_raw('ent', (t, i, j))))


@eig('angle')
def _(I, node, fn, obj, args):
    return fld(objv(I, node, obj), 'angle')


@eig('axis')
def _(I, node, fn, obj, args):
    return fld(objv(I, node, obj), 'axis')


@eig('reverse')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    return mlam(mrows(v), mcols(v), lambda i, j: ment(v, sub(sub(mrows(v), ONE), i),
                                                      sub(sub(mcols(v), ONE), j)))


@eig('translate')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    x = argv(I, node, args, 0)
    I.store_at(obj.p, struct('Iso', [('R', fld(v, 'R')),
                                     ('t', madd(fld(v, 't'), mmul(fld(v, 'R'), x)))]))
    return obj


@eig('pretranslate')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    x = argv(I, node, args, 0)
    I.store_at(obj.p, struct('Iso', [('R', fld(v, 'R')), ('t', madd(fld(v, 't'), x))]))
    return obj


def rot_of(x):
    if isq(x):
        return quat_R(x)
    if is_aa(x):
        return quat_R(aa_quat(x))
    return x


@eig('rotate')
def _(I, node, fn, obj, args):
    v = objv(I, node, obj)
    x = rot_of(argv(I, node, args, 0))
    I.store_at(obj.p, struct('Iso', [('R', mmul(fld(v, 'R'), x)), ('t', fld(v, 't'))]))
    return obj


# ------------------------------------------------------------------ constructors
def ctor(I, n, t, fn):
    nm = t.get('name', '')
    ty = n['t']
    e = I.prog.eigen(ty)
    an = n['args']
    if e:
        return eigen_ctor(I, n, e, an, fn)
    if nm in SEQ_TYPES:
        return seq_ctor(I, n, t, nm, an, fn)
    if nm in MAP_TYPES:
        if not an:
            return map_empty()
        return NotImplemented
    if nm in PTR_TYPES:
        if not an:
            return NULL
        v = I.val(I.ev(an[0]))
        return v
    if nm == 'std::optional':
        if not an:
            return NONE_OPT
        v = I.val(I.ev(an[0]))
        if v.op == 'nullopt':
            return NONE_OPT
        if v.op == 'opt':
            return v
        return opt(TRUE, I.reflect(v, t['args'][0]['T']))
    if nm == 'std::pair':
        if len(an) == 2:
            a = [I.val(I.ev(x)) for x in an]
            return struct('pair', [('first', a[0]), ('second', a[1])])
        if len(an) == 1:
            return as_pair(I.val(I.ev(an[0])))
        if not an:
            return I.default_value(ty)
    if nm == 'std::tuple':
        ps = t['args'][0]['P'] if t['args'] and 'P' in t['args'][0] else t['args']
        if len(an) == len(ps):
            if len(an) == 1:
                v = I.val(I.ev(an[0]))
                if v.op == 'struct' and v.args[0] in ('tuple', 'pair'):
                    return v
                return struct('tuple', [('0', I.convert(v, ps[0]['T']))])
            return struct('tuple', [(str(i), tuple_slot(I, I.ev(x), ps[i]['T'])) for i, x in enumerate(an)])
        if len(an) == 1:
            return I.val(I.ev(an[0]))
        if not an:
            return I.default_value(ty)
    if nm in ('std::basic_string', 'std::__cxx11::basic_string', 'std::basic_string_view'):
        if not an:
            return string('')
        v = I.val(I.ev(an[0]))
        if len([x for x in an if x['k'] != 'opq']) == 1 or n['fn'].get('copy'):
            return v
        if len(an) == 2 and drill(an[1])['k'] in ('ctor', 'temp', 'zero', 'init'):
            return v
        return mk_raw('app', ('string',) + tuple(I.reify(I.ev(x)) for x in an))
    if nm == 'std::function':
        if not an:
            return NULL
        return I.val(I.ev(an[0]))
    if nm == 'std::reference_wrapper':
        x = I.materialise(I.ev(an[0]))
        return mk_raw('refv', (x.p,))
    if nm.startswith('__gnu_cxx::__normal_iterator') or nm in ('std::reverse_iterator',) or \
            nm.endswith('_iterator') or nm.endswith('const_iterator'):
        if not an:
            return UNDEF
        return I.val(I.ev(an[0]))
    if nm in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock'):
        for x in an:
            I.ev(x)
        return struct('lock', [])
    if nm in ('std::mutex', 'std::recursive_mutex'):
        return struct('mutex', [])
    if nm in ('std::invalid_argument', 'std::out_of_range', 'std::runtime_error', 'std::logic_error',
              'std::exception', 'std::domain_error', 'std::length_error'):
        a = tuple(I.reify(I.ev(x)) for x in an)
        return mk_raw('excobj', (nm,) + a)
    if nm.startswith('ranges::') or nm.startswith('std::ranges') or nm.startswith('std::placeholders') \
            or nm.startswith('std::_Placeholder'):
        if an:
            return I.val(I.ev(an[0]))
        return mk_raw('rangeobj', (nm,))
    if nm.startswith('std::allocator') or nm.startswith('Eigen::aligned_allocator'):
        return UNIT
    if nm == 'std::complex':
        return NotImplemented
    if nm == 'Eigen::SelfAdjointEigenSolver':
        if an:
            return mk_raw('decomp', ('compute', typed_val(I, I.ev(an[0]), an[0])))
        return mk_raw('decomp', ('none', UNIT))
    if nm.startswith('Eigen::') and nm.endswith(('LLT', 'LDLT', 'HouseholderQR', 'PartialPivLU',
                                                 'FullPivLU', 'JacobiSVD', 'ColPivHouseholderQR')):
        if an:
            names = {'LLT': 'llt', 'LDLT': 'ldlt', 'HouseholderQR': 'householderQr',
                     'PartialPivLU': 'partialPivLu', 'FullPivLU': 'fullPivLu',
                     'ColPivHouseholderQR': 'colPivHouseholderQr', 'JacobiSVD': 'jacobiSvd'}
            return mk_raw('decomp', (names[nm.split('::')[-1]], typed_val(I, I.ev(an[0]), an[0])))
    if nm == 'Eigen::Translation':
        if len(an) == 1:
            return struct('Trl', [('t', typed_val(I, I.ev(an[0]), an[0]))])
        if len(an) == 3:
            return struct('Trl', [('t', mat(3, 1, [I.num(x) for x in an]))])
    if nm.startswith('Eigen::') and len(an) == 1:
        return I.val(I.ev(an[0]))
    if nm.startswith('Eigen::CommaInitializer'):
        return NotImplemented
    return NotImplemented


def tuple_slot(I, x, ty):
    if I.prog.ty(ty)['k'] == 'ref':
        return mk_raw('refv', (I.materialise(x).p,))
    return I.convert(I.val(x), ty)


def as_pair(v):
    if v.op == 'struct' and v.args[0] == 'tuple' and len(v.args) == 3:
        return struct('pair', [('first', fld(v, '0')), ('second', fld(v, '1'))])
    return v


def eigen_ctor(I, n, e, an, fn):
    if not an:
        return eigen_default(I, e)
    if len(an) == 2 and drill(an[1]).get('fn', {}).get('n') == 'PrivateType':
        an = an[:1]  # Array(expression, tag = tag())
    vs = [typed_val(I, I.ev(a), a) for a in an]
    if e[0] == 'M':
        r, c = e[1], e[2]
        if len(vs) == 1:
            v = vs[0]
            if v.op == 'list' and n.get('stdlist'):
                return NotImplemented
            if is_bool(v):
                v = b2n(v)
            if v.op == 'poly':
                if r is not None and c is not None:
                    if r * c == 1:
                        return mat(1, 1, [v])
                    return eigen_default(I, e)
                u = I.blank_var('undefmat')
                R, C = (v, ONE) if c == 1 else ((ONE, v) if r == 1 else (v, v))
                return mlam(R, C, lambda i, j: coerce('r', mk_raw('ent', (u, i, j))))
            if v.op == 'iter':
                return NotImplemented
            if not ismat(v) and not v.op == 'struct' and v.op not in ('undef',):
                v = reflect_mat(v, r, c)
            return eigen_convert(I, v, e)
        vs = [b2n(v) if is_bool(v) else v for v in vs]
        if r is not None and c is not None and r * c == len(vs):
            return mat(r, c, vs)
        if len(vs) == 2 and (r is None or c is None):
            R = vs[0]
            C = vs[1]
            if c == 1:
                C = ONE
            u = I.blank_var('undefmat')
            return mlam(R, C, lambda i, j: coerce('r', mk_raw('ent', (u, i, j))))
        return NotImplemented
    if e[0] == 'Q':
        if len(vs) == 4:
            return quat(*[v if v.op == 'poly' else coerce('r', v) for v in vs])
        v = vs[0]
        if v.op == 'struct' and v.args[0] == 'AA':
            return aa_quat(v)
        if isq(v):
            return v
        if isiso(v):
            return mat_quat(fld(v, 'R'))
        if ismat(v):
            if const(mcols(v)) == 1:
                return quat(ment(v, num(3), ZERO), *[ment(v, num(i), ZERO) for i in range(3)])
            return mat_quat(v)
        return I.reflect(v, n['t'])
    if e[0] == 'A':
        if len(vs) == 2:
            return struct('AA', [('angle', vs[0]), ('axis', vs[1])])
        v = vs[0]
        if is_aa(v):
            return v
        b = mk_raw('app', ('angleaxis_of', v))
        return struct('AA', [('angle', coerce('r', fld(b, 'angle'))),
                             ('axis', reflect_mat(fld(b, 'axis'), 3, 1))])
    if e[0] == 'I':
        v = vs[0]
        if isiso(v):
            return v
        if ismat(v):
            return view_set(I, v, ('isomat',), v)
        if isq(v):
            return struct('Iso', [('R', quat_R(v)), ('t', mat(3, 1, [ZERO] * 3))])
        return I.reflect(v, n['t'])
    return NotImplemented


def elem_default(I, t):
    a = t.get('args', [])
    if a and 'T' in a[0]:
        et = a[0]['T']
        return I.zero_uninit(I.default_value(et), et)
    return UNDEF


def seq_ctor(I, n, t, nm, an, fn):
    an = [a for a in an if not is_alloc(I, a)]
    if not an:
        if nm == 'std::array':
            return I.default_value(n['t'])
        return mk_raw('list', ())
    if n.get('stdlist') or (len(an) == 1 and drill(an[0])['k'] == 'initlist'):
        return I.val(I.ev(an[0]))
    vs = [I.ev(a) for a in an]
    v0 = I.val(vs[0])
    if len(vs) == 1:
        if v0.op in ('seq', 'list') or v0.op not in ('poly',):
            if v0.op in ('fld', 'sel', 'app', 'var', 'ite', 'seq', 'list', 'uninit', 'undef'):
                if I.prog.scalar(drill(an[0])['t']) is None:
                    return v0
        if v0.op != 'poly':
            v0 = coerce('z', v0)
        # vector(n)
        d = elem_default(I, t)
        return seq(v0, lambda j: d)
    v1 = I.val(vs[1])
    if v0.op == 'iter' and v1.op == 'iter':
        return range_copy(I, v0, v1)
    if v0.op != 'poly':
        v0 = coerce('z', v0)
    et = t['args'][0]['T'] if t.get('args') else None
    if et is not None:
        v1 = I.convert(v1, et)
    return seq(v0, lambda j: v1)


def is_alloc(I, a):
    return 'allocator' in I.prog.name(a['t']) and 'allocator' in I.prog.ty(I.prog.strip_ref(a['t']))['s'].split('<')[0]


def cont_elem(I, v, i):
    if ismat(v):
        return vec_ent(v, i)
    return sel(v, i)


def cont_len(v):
    if ismat(v):
        return mul(mrows(v), mcols(v))
    return length(v)


def range_copy(I, a, b):
    cont = I.load(a.args[0])
    if len(a.args) > 2:
        n = cont_len(cont)
        return seq(sub(b.args[1], a.args[1]),
                   lambda j: cont_elem(I, cont, sub(sub(n, ONE), add(a.args[1], j))))
    return seq(sub(b.args[1], a.args[1]), lambda j: cont_elem(I, cont, add(a.args[1], j)))


def default_opaque(I, t):
    nm = t['name']
    if nm in ('std::mutex', 'std::recursive_mutex'):
        return struct('mutex', [])
    return mk_raw('default', (nm,))


# ------------------------------------------------------------------ std
STD = {}


def std(*ns):
    def d(f):
        for n in ns:
            STD[n] = f
        return f
    return d


def std_call(I, node, fn, obj, args):
    q = fn['q']
    n = fn['n']
    f = STD.get(q)
    if f is not None:
        return f(I, node, fn, obj, args)
    if obj is not None or fn.get('mem'):
        cls = q.rsplit('::', 1)[0]
        base = cls
        if base.startswith('std::_') or base.startswith('std::__'):
            pass
        if cls in ('std::vector', 'std::deque', 'std::queue', 'std::stack', 'std::__cxx11::list',
                   'std::initializer_list', 'std::array', 'std::list', 'std::_Vector_base',
                   'std::valarray'):
            f = SEQ.get(n)
            if f is not None:
                return f(I, node, fn, obj, args)
        if cls in ('std::map', 'std::unordered_map', 'std::_Rb_tree'):
            f = MAPF.get(n)
            if f is not None:
                return f(I, node, fn, obj, args)
        if cls in ('std::optional', 'std::_Optional_base_impl', 'std::_Optional_payload') or \
                cls.startswith('std::_Optional'):
            f = OPT.get(n)
            if f is not None:
                return f(I, node, fn, obj, args)
        if 'shared_ptr' in cls or 'unique_ptr' in cls or 'weak_ptr' in cls:
            f = PTRF.get(n)
            if f is not None:
                return f(I, node, fn, obj, args)
        if 'iterator' in cls.lower():
            f = ITER.get(n)
            if f is not None:
                return f(I, node, fn, obj, args)
        if 'basic_string' in cls:
            f = STR.get(n)
            if f is not None:
                return f(I, node, fn, obj, args)
        if cls == 'std::function' and n == 'operator()':
            return I.call_value(node, I.val(obj), args)
        if cls == 'std::function' and n == 'operator bool':
            v = I.val(obj)
            return FALSE if v.op == 'null' else TRUE
        if cls == 'std::function' and n == 'operator=':
            I.store_at(obj.p, I.val(args[0]))
            return obj
        if cls == 'std::reference_wrapper':
            v = I.val(obj)
            return LV(v.args[0]) if v.op == 'refv' else v
        if cls in ('std::pair', 'std::tuple') and n == 'operator=':
            return tuple_assign(I, node, fn, obj, args)
        if cls == 'std::numeric_limits':
            return num_limits(I, node, fn)
        if cls.endswith('lock_guard') or cls.endswith('unique_lock') or cls.endswith('mutex'):
            return UNIT
    else:
        short = q[5:] if q.startswith('std::') else q
        if n.startswith('operator'):
            f = OPF.get(n)
            if f is not None:
                return f(I, node, fn, obj, args)
    return NotImplemented


def num_limits(I, node, fn):
    t = I.prog.ty(I.prog.strip_ref(fn['rt']))
    n = fn['n']
    if t.get('b') == 'int':
        b, s = t['bits'], t.get('sg')
        if n == 'max':
            return num((1 << (b - 1)) - 1 if s else (1 << b) - 1)
        if n in ('min', 'lowest'):
            return num(-(1 << (b - 1)) if s else 0)
    return atom(mk_raw('const', ('%s:%s:%d' % (n, t.get('b'), t.get('bits', 0)),)))


def math1(f):
    def g(I, node, fn, obj, args):
        return f(realarg(I, node, args, 0))
    return g


def realarg(I, node, args, i):
    v = argv(I, node, args, i)
    if v.op == 'poly' or v.op == 'undef':
        return v
    if is_bool(v):
        return b2n(v)
    return coerce('r', v)


def undef_safe(f):
    def g(*a):
        if any(x.op == 'undef' for x in a):
            return UNDEF
        return f(*a)
    return g


def exp(p):
    if p is ZERO:
        return ONE
    return atom(mk_raw('exp', (p,)))


def un(name):
    def f(p):
        a = as_atom(p)
        if a is not None and a.op == 'ite':
            return ite(a.args[0], f(a.args[1]), f(a.args[2]))
        return atom(mk_raw(name, (p,)))
    return f


def tan(p):
    return div(TM.sin(p), TM.cos(p))


def fdispatch(names, f):
    for n in names:
        STD['std::' + n] = math1(f)
        M[n] = math1(f)
        M['std::' + n] = math1(f)


fdispatch(['sqrt', 'sqrtf', 'sqrtl'], sqrt)
fdispatch(['abs', 'fabs', 'fabsf', 'labs', 'llabs'], abs_)
fdispatch(['sin', 'sinf'], TM.sin)
fdispatch(['cos', 'cosf'], TM.cos)
fdispatch(['tan'], tan)
fdispatch(['exp', 'expf'], exp)
for _n in ('atan', 'asin', 'log', 'log10', 'log2', 'sinh', 'cosh', 'tanh', 'cbrt', 'ceil', 'acos',
           'erf', 'tgamma'):
    fdispatch([_n], un(_n))
fdispatch(['floor', 'floorf'], floor)
fdispatch(['round', 'roundf', 'lround', 'llround'], TM.round_)
fdispatch(['rint', 'nearbyint', 'lrint', 'llrint', 'roundeven'], un('rint'))
fdispatch(['trunc'], trunc)


def fn2(names, f):
    def g(I, node, fn, obj, args):
        return f(realarg(I, node, args, 0), realarg(I, node, args, 1))
    for n in names:
        STD['std::' + n] = g
        M[n] = g
        M['std::' + n] = g


fn2(['atan2', 'atan2f'], lambda a, b: fn_app('atan2', a, b))
fn2(['hypot'], lambda a, b: sqrt(add(mul(a, a), mul(b, b))))
fn2(['fmod', 'fmodf'], lambda a, b: fn_app('fmod', a, b))
fn2(['fmin'], TM.min_)
fn2(['fmax'], TM.max_)


def f_pow(a, b):
    c = const(b)
    if c is not None and c.denominator == 1 and abs(c) <= 8:
        return powi(a, int(c))
    if c == Q(1, 2):
        return sqrt(a)
    return fn_app('pow', a, b)


fn2(['pow', 'powf'], f_pow)


@model('std::isnan', 'isnan', 'std::isinf', 'isinf', 'std::isfinite', 'isfinite')
def _(I, node, fn, obj, args):
    return fpclass(fn['n'], realarg(I, node, args, 0))


@model('std::min', 'std::max')
def _(I, node, fn, obj, args):
    if len(args) == 1:
        v = I.val(args[0])
        if v.op == 'list':
            r = v.args[0]
            for x in v.args[1:]:
                r = TM.min_(r, x) if fn['n'] == 'min' else TM.max_(r, x)
            return r
        return NotImplemented
    a, b = realarg(I, node, args, 0), realarg(I, node, args, 1)
    if len(args) == 3:
        return NotImplemented
    # std::max returns the first when equal
    return ite(lt(b, a), b, a) if fn['n'] == 'min' else ite(lt(a, b), b, a)


@model('std::clamp')
def _(I, node, fn, obj, args):
    v, lo, hi = [realarg(I, node, args, i) for i in range(3)]
    return ite(lt(v, lo), lo, ite(lt(hi, v), hi, v))


@model('std::swap', 'std::iter_swap')
def _(I, node, fn, obj, args):
    if fn['n'] == 'iter_swap':
        args = [LV(I.deref(I.val(a))) for a in args]
    a, b = I.val(args[0]), I.val(args[1])
    I.store_at(args[0].p, b)
    I.store_at(args[1].p, a)
    return UNIT


@model('std::exchange')
def _(I, node, fn, obj, args):
    a, b = I.val(args[0]), I.val(args[1])
    I.store_at(args[0].p, b)
    return a


@model('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::decay_copy')
def _(I, node, fn, obj, args):
    if len(args) == 3:
        return STD['std::copy'](I, node, fn, obj, args)
    if fn['n'] == 'addressof':
        return args[0].p
    return args[0]


@model('std::make_pair')
def _(I, node, fn, obj, args):
    return struct('pair', [('first', argv(I, node, args, 0)), ('second', argv(I, node, args, 1))])


@model('std::make_tuple')
def _(I, node, fn, obj, args):
    return struct('tuple', [(str(i), argv(I, node, args, i)) for i in range(len(args))])


@model('std::tie', 'std::forward_as_tuple')
def _(I, node, fn, obj, args):
    return struct('tuple', [(str(i), mk_raw('refv', (I.materialise(a).p,))) for i, a in enumerate(args)])


def tuple_elem(I, base, i, ty=None):
    v = I.load(base)
    if ty is not None and v.op not in ('struct', 'list', 'seq'):
        r = I.prog.ty(I.prog.strip_ref(ty))
        if r.get('name') == 'std::pair':
            return LV(extend(base, sf('first' if i == 0 else 'second')))
    return LV(extend(base, tuple_sel(v, i)))


def tuple_sel(v, i):
    if v.op == 'ite':
        return tuple_sel(v.args[1], i)
    if v.op == 'struct':
        if v.args[0] == 'pair':
            return sf('first' if i == 0 else 'second')
        names = [n for n, _x in fields(v)]
        return sf(names[i])
    if v.op in ('list', 'seq'):
        return si(num(i))
    return sf(str(i))


@model('std::get')
def _(I, node, fn, obj, args):
    ta = [a for a in fn.get('targs', []) if 'I' in a]
    if not ta:
        return NotImplemented
    i = int(ta[0]['I'])
    x = I.materialise(args[0])
    r = tuple_elem(I, x.p, i)
    v = I.load(r.p)
    if v.op == 'refv':
        return LV(v.args[0])
    return r


def tuple_assign(I, node, fn, obj, args):
    tgt = I.val(obj)
    src = I.val(args[0])
    if tgt.op == 'struct' and any(v.op == 'refv' for _n, v in fields(tgt)):
        vals = []
        for i, (n, v) in enumerate(fields(tgt)):
            s = I.proj(src, tuple_sel(src, i))
            if s.op == 'refv':
                s = I.load(s.args[0])
            vals.append((v, s))
        for v, s in vals:
            if v.op == 'refv':
                I.store_at(v.args[0], s)
        return obj
    I.store_at(obj.p, src)
    return obj


@model('std::make_shared', 'std::make_unique', 'boost::make_shared', 'pcl::make_shared')
def _(I, node, fn, obj, args):
    ty = fn['targs'][0]['T']
    I.built = None
    v = construct(I, node, ty, args)
    if I.built is not None and I.built[0] is None and I.load(I.built[1]) is v:
        return I.built[1]
    return I.new_loc(v, ty, 'heap')


@model('std::allocate_shared')
def _(I, node, fn, obj, args):
    ty = fn['targs'][0]['T']
    return I.new_loc(construct(I, node, ty, args[1:]), ty, 'heap')


def built(I, this):
    I.built = (None, this)
    return I.load(this)


def forwarded(I, node, i, args, ty):
    """argument i of a forwarding call (emplace_back, make_shared, ...) converted as the
    constructor it reaches would convert it; its own type is that of the argument expression"""
    ns = (node or {}).get('args') or []
    t = I.prog.ty(ty)
    if len(ns) < len(args) or not I.prog.scalar(ty) or t.get('k') == 'ref':
        return args[i]
    s = I.prog.ty(I.prog.strip_ref(ns[len(ns) - len(args) + i]['t']))
    if s.get('k') != 'b' or t.get('k') != 'b':
        return args[i]
    v = I.reflect(I.val(args[i]), ns[len(ns) - len(args) + i]['t'])
    if v.op != 'poly':
        return v
    if s.get('b') == 'float' and t.get('b') == 'float':
        return f32(v) if t.get('bits') == 32 and s.get('bits', 64) > 32 else v
    if s.get('b') == 'float' and t.get('b') == 'int':
        return trunc(v)
    if t.get('b') == 'int' and t.get('bits', 64) <= 16 and (
            s.get('bits', 64) > t['bits'] or s.get('sg') != t.get('sg')):
        return icast(t['bits'], bool(t.get('sg')), v)
    return v


def construct(I, node, ty, args):
    """construct an object of a type from evaluated arguments"""
    t = I.prog.ty(ty)
    if not args:
        r = I.prog.rec(ty)
        f = find_ctor(I, ty, 0)
        if f is not None:
            this = I.new_loc(I.blank(ty), ty, 'obj')
            I.call_fn(f, this, [])
            return built(I, this)
        return I.zero_uninit(I.default_value(ty), ty) if I.prog.scalar(ty) else I.default_value(ty)
    if len(args) == 1:
        v = I.val(args[0])
        if v.op == 'struct' and t['k'] == 'rec' and v.args[0] == t['name']:
            return v
        at = I.prog.rec(ty)
    if I.prog.scalar(ty):
        return I.reflect(I.val(forwarded(I, node, 0, args, ty)), ty)
    nm = t.get('name', '')
    f = find_ctor(I, ty, len(args), args)
    if f is not None:
        this = I.new_loc(I.blank(ty), ty, 'obj')
        I.call_fn(f, this, [forwarded(I, node, i, args, p['t']) for i, p in enumerate(f['ps'])])
        return built(I, this)
    if nm in SEQ_TYPES:
        v0 = I.val(args[0])
        if len(args) == 1 and v0.op != 'poly':
            return v0
        if len(args) == 1:
            d = elem_default(I, t)
            return seq(v0, lambda j: d)
        v1 = I.val(args[1])
        if v0.op == 'iter':
            return range_copy(I, v0, v1)
        return seq(v0, lambda j: v1)
    if nm == 'std::pair' and len(args) == 2:
        return struct('pair', [('first', I.val(args[0])), ('second', I.val(args[1]))])
    if nm == 'std::tuple':
        return struct('tuple', [(str(i), I.val(a)) for i, a in enumerate(args)])
    e = I.prog.eigen(ty)
    if e:
        vs = [I.val(a) for a in args]
        if len(vs) == 1:
            return I.convert(vs[0], ty)
        if e[0] == 'M' and e[1] is not None and e[2] is not None and e[1] * e[2] == len(vs):
            return mat(e[1], e[2], vs)
        if e[0] == 'Q':
            return quat(*vs)
    r = I.prog.rec(ty)
    if r is not None and len(args) == 1:
        return I.reflect(I.val(args[0]), ty)
    if len(args) == 1:
        v = I.val(args[0])
        return v
    return mk_raw('app', ('ctor:' + nm,) + tuple(I.reify(a) for a in args))


def find_ctor(I, ty, n, args=None):
    r = I.prog.rec(ty)
    if r is None:
        return None
    us = I.prog.ty(I.prog.strip_ref(ty)).get('us')
    best = None
    for f in I.prog.funs.values():
        if not f.get('ctor'):
            continue
        ct = I.prog.ty(f['cls'])
        if ct.get('us') != us:
            continue
        if f.get('dflt') and n == 1:
            continue
        if len(f['ps']) == n:
            if n == 1 and I.prog.name(f['ps'][0]['t']) == r['name']:
                continue
            best = f
    return best


@model('std::ref', 'std::cref')
def _(I, node, fn, obj, args):
    return mk_raw('refv', (I.materialise(args[0]).p,))


@model('std::bind')
def _(I, node, fn, obj, args):
    vs = []
    for a in args:
        v = I.val(a)
        vs.append(v)
    return mk_raw('bindv', tuple(vs))


@model('std::mem_fn')
def _(I, node, fn, obj, args):
    return I.val(args[0])


def gvar(I, q, n):
    if q.startswith('std::placeholders::_'):
        return mk_raw('ph', (int(q.rsplit('_', 1)[1]),))
    if q == 'std::nullopt':
        return mk_raw('nullopt', ())
    if q.startswith('ranges::') or q.startswith('std::views') or q.startswith('std::ranges'):
        return mk_raw('rangeobj', (q,))
    if q in ('std::ignore',):
        return mk_raw('ignore', ())
    if q in ('std::cout', 'std::cerr', 'std::clog'):
        return struct('stream', [])
    return None


@model('std::make_optional')
def _(I, node, fn, obj, args):
    v = argv(I, node, args, 0)
    return opt(TRUE, v)


# optional
OPT = {}


def opt_view(I, obj):
    return obj if isinstance(obj, LV) else I.materialise(obj)


def o_has(I, node, fn, obj, args):
    return opt_has(I.val(obj))


OPT['has_value'] = o_has
OPT['operator bool'] = o_has
OPT['_M_is_engaged'] = o_has


def o_value(I, node, fn, obj, args):
    v = I.val(obj)
    h = opt_has(v)
    if fn['n'] == 'value':
        I.guard_exit(not_(h), 'throw', mk_raw('exc', ('std::bad_optional_access', UNIT)))
        if not I.alive:
            return UNDEF
    else:
        I.bound(h, node, 'value of an optional')
    if isinstance(obj, LV):
        return LV(extend(obj.p, mk_raw('so', ())))
    return opt_val(v)


def where(I, node):
    fr = I.frames[-1].fn if I.frames else {'q': '?', 'file': '?'}
    return (fr.get('q'), fr.get('file'), node.get('ln'))


OPT['value'] = o_value
OPT['operator*'] = o_value
OPT['operator->'] = lambda I, node, fn, obj, args: _addr(o_value(I, node, fn, obj, args), I)


def _addr(x, I):
    return x.p if isinstance(x, LV) else I.materialise(x).p


def o_value_or(I, node, fn, obj, args):
    v = I.val(obj)
    return ite(opt_has(v), opt_val(v), argv(I, node, args, 0))


OPT['value_or'] = o_value_or


def o_assign(I, node, fn, obj, args):
    v = I.val(args[0])
    if v.op == 'nullopt':
        v = NONE_OPT
    elif v.op != 'opt' and not (v.op == 'ite' and v.args[1].op == 'opt'):
        an = nodes_of(node)[1]
        d = drill(an[0]) if an else None
        if d is None or I.prog.name(d['t']) != 'std::optional':
            v = opt(TRUE, v)
    I.store_at(obj.p, v)
    return obj


OPT['operator='] = o_assign


def o_reset(I, node, fn, obj, args):
    I.store_at(obj.p, NONE_OPT)
    return UNIT


OPT['reset'] = o_reset


def o_emplace(I, node, fn, obj, args):
    I.store_at(obj.p, opt(TRUE, I.val(args[0])))
    return LV(extend(obj.p, mk_raw('so', ())))


OPT['emplace'] = o_emplace

# pointers
PTRF = {}


def p_get(I, node, fn, obj, args):
    return I.val(obj)


PTRF['get'] = p_get
PTRF['operator->'] = p_get
PTRF['lock'] = p_get


def p_deref(I, node, fn, obj, args):
    return LV(I.deref(I.val(obj)))


PTRF['operator*'] = p_deref


def p_bool(I, node, fn, obj, args):
    v = I.val(obj)
    return ptr_bool(v)


def ptr_bool(v):
    if v.op == 'ite':
        return ite(v.args[0], ptr_bool(v.args[1]), ptr_bool(v.args[2]))
    if v.op == 'null':
        return FALSE
    if v.op in ('ptr',):
        return TRUE
    return not_(oeq(v, NULL))


PTRF['operator bool'] = p_bool


def p_assign(I, node, fn, obj, args):
    I.store_at(obj.p, I.val(args[0]))
    return obj


PTRF['operator='] = p_assign


def p_reset(I, node, fn, obj, args):
    I.store_at(obj.p, I.val(args[0]) if args else NULL)
    return UNIT


PTRF['reset'] = p_reset

# strings
STR = {}
STR['c_str'] = lambda I, node, fn, obj, args: I.val(obj)
STR['data'] = STR['c_str']


def s_assign(I, node, fn, obj, args):
    I.store_at(obj.p, I.val(args[0]))
    return obj


STR['operator='] = s_assign


def s_empty(I, node, fn, obj, args):
    return oeq(I.val(obj), string(''))


STR['empty'] = s_empty


def strlen(v):
    if v.op == 'str':
        return num(len(v.args[0]))
    if v.op == 'ite':
        return ite(v.args[0], strlen(v.args[1]), strlen(v.args[2]))
    return atom(mk_raw('len', (v,)))


STR['size'] = lambda I, node, fn, obj, args: strlen(I.val(obj))
STR['length'] = STR['size']


def s_char(s, i):
    c = const(i)
    if s.op == 'str' and c is not None and 0 <= c < len(s.args[0]):
        return num(ord(s.args[0][int(c)]))
    if s.op == 'app' and s.args[0] == 'tail':
        return s_char(s.args[1], add(s.args[2], i))
    if s.op == 'ite':
        return ite(s.args[0], s_char(s.args[1], i), s_char(s.args[2], i))
    return atom(mk_raw('app', ('char', s, i)))


def s_tail(s, n):
    if const(n) == 0:
        return s
    if s.op == 'str' and const(n) is not None:
        return string(s.args[0][int(const(n)):])
    if s.op == 'app' and s.args[0] == 'tail':
        return s_tail(s.args[1], add(s.args[2], n))
    return mk_raw('app', ('tail', s, n))


STR['front'] = lambda I, node, fn, obj, args: s_char(I.val(obj), num(0))
STR['back'] = lambda I, node, fn, obj, args: s_char(I.val(obj), add(strlen(I.val(obj)), num(-1)))
STR['operator[]'] = lambda I, node, fn, obj, args: s_char(I.val(obj), argv(I, node, args, 0))
STR['at'] = STR['operator[]']


def s_substr(I, node, fn, obj, args):
    v, a, n = I.val(obj), argv(I, node, args, 0), argv(I, node, args, 1)
    if const(n) is not None and (const(n) < 0 or const(n) > 2 ** 31):
        return s_tail(v, a)
    return mk_raw('app', ('substr', v, a, n))


def s_erase(I, node, fn, obj, args):
    a, n = argv(I, node, args, 0), argv(I, node, args, 1)
    if const(a) != 0 or const(n) is None or n.op != 'poly':
        I.store_at(obj.p, mk_raw('app', ('erase', I.val(obj), a, n)))
    else:
        I.store_at(obj.p, s_tail(I.val(obj), n))
    return obj


STR['substr'] = s_substr
STR['erase'] = s_erase


# iterators
ITER = {}


def it_deref(I, node, fn, obj, args):
    v = I.val(obj)
    return LV(it_lv(I, v, node))


def it_lv(I, v, node=None):
    if v.op == 'ite':
        return ite(v.args[0], it_lv(I, v.args[1], node), it_lv(I, v.args[2], node))
    if v.op == 'iter':
        cont = I.load(v.args[0])
        i = v.args[1]
        if len(v.args) > 2:
            i = sub(sub(cont_len(cont), ONE), i)
        I.bound(and_(ge(i, ZERO), lt(i, cont_len(cont))), node, 'element behind an iterator')
        return extend(v.args[0], si(i))
    return I.deref(v)


ITER['operator*'] = it_deref
ITER['operator->'] = lambda I, node, fn, obj, args: it_lv(I, I.val(obj), node)
ITER['base'] = lambda I, node, fn, obj, args: it_base(I.val(obj), I)


def it_base(v, I):
    if len(v.args) > 2:
        return mk_raw('iter', (v.args[0], sub(cont_len(I.load(v.args[0])), v.args[1])))
    return v


def it_step(d):
    def f(I, node, fn, obj, args):
        v = I.val(obj)
        nv = I.step(v, num(d))
        I.store_at(obj.p, nv)
        if args:      # postfix
            return v
        return obj
    return f


ITER['operator++'] = it_step(1)
ITER['operator--'] = it_step(-1)


def it_off(sign):
    def f(I, node, fn, obj, args):
        v = I.val(obj)
        b = argv(I, node, args, 0)
        if b.op == 'iter':
            return sub(v.args[1], b.args[1])
        return I.step(v, scale(b if b.op == 'poly' else coerce('z', b), Q(sign)))
    return f


ITER['operator+'] = it_off(1)
ITER['operator-'] = it_off(-1)


def it_offa(sign):
    def f(I, node, fn, obj, args):
        v = I.val(obj)
        b = numarg(I, node, args, 0)
        I.store_at(obj.p, I.step(v, scale(b, Q(sign))))
        return obj
    return f


ITER['operator+='] = it_offa(1)
ITER['operator-='] = it_offa(-1)


def it_index(I, node, fn, obj, args):
    v = I.val(obj)
    return LV(it_lv(I, I.step(v, numarg(I, node, args, 0))))


ITER['operator[]'] = it_index


def it_assign(I, node, fn, obj, args):
    I.store_at(obj.p, I.val(args[0]))
    return obj


ITER['operator='] = it_assign


def it_cmp(op):
    def f(I, node, fn, obj, args):
        a = I.val(obj) if obj is not None else I.val(args[0])
        b = I.val(args[-1])
        return iter_op(I, op, a, b)
    return f


def iter_op(I, op, a, b):
    if a.op == 'ite':
        return ite(a.args[0], iter_op(I, op, a.args[1], b), iter_op(I, op, a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], iter_op(I, op, a, b.args[1]), iter_op(I, op, a, b.args[2]))
    if a.op == 'iter' and b.op == 'iter':
        x, y = a.args[1], b.args[1]
        if op == '-':
            return sub(x, y)
        return {'<': lt, '>': gt, '<=': le, '>=': ge, '==': eqn,
                '!=': lambda p, q: not_(eqn(p, q))}[op](x, y)
    if a.op == 'iter' and op in '+-':
        b = b if b.op == 'poly' else coerce('z', b)
        return I.step(a, b if op == '+' else neg(b))
    if b.op == 'iter' and op == '+':
        return I.step(b, a)
    if op in ('==', '!='):
        r = oeq(a, b)
        return r if op == '==' else not_(r)
    raise Unsupported('iterator op %s %s %s' % (op, a.op, b.op))


OPF = {}


def op_cmp(op):
    def f(I, node, fn, obj, args):
        a, b = argv(I, node, args, 0), argv(I, node, args, 1)
        return gen_cmp(I, op, a, b)
    return f


def gen_cmp(I, op, a, b):
    if a.op == 'ite' and not a.op == 'poly':
        return ite(a.args[0], gen_cmp(I, op, a.args[1], b), gen_cmp(I, op, a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], gen_cmp(I, op, a, b.args[1]), gen_cmp(I, op, a, b.args[2]))
    if a.op == 'iter' and b.op == 'iter':
        return iter_op(I, op, a, b)
    if a.op == 'nullopt' or b.op == 'nullopt':
        o = b if a.op == 'nullopt' else a
        r = not_(opt_has(o))
        return r if op == '==' else not_(r)
    if a.op == 'opt' or b.op == 'opt':
        if op in ('==', '!='):
            if b.op != 'opt':
                r = and_(opt_has(a), gen_cmp(I, '==', opt_val(a), b))
            elif a.op != 'opt':
                r = and_(opt_has(b), gen_cmp(I, '==', a, opt_val(b)))
            else:
                r = or_(and_(not_(opt_has(a)), not_(opt_has(b))),
                        and_(opt_has(a), opt_has(b), gen_cmp(I, '==', opt_val(a), opt_val(b))))
            return r if op == '==' else not_(r)
    if a.op == 'null' or b.op == 'null':
        o = b if a.op == 'null' else a
        r = not_(ptr_bool(o))
        return r if op == '==' else not_(r)
    if op in ('==', '!='):
        if a.op in ('seq', 'list') and b.op in ('seq', 'list'):
            r = and_(eqn(length(a), length(b)),
                     ge(first(length(a), lam(lambda k: not_(gen_cmp(I, '==', sel(a, k), sel(b, k))))),
                        length(a)))
        elif a.op == 'struct' and b.op == 'struct' and a.args[0] in ('pair', 'tuple'):
            r = and_(*[gen_cmp(I, '==', x[1], y[1]) for x, y in zip(fields(a), fields(b))])
        else:
            r = I.equal_val(a, b)
        return r if op == '==' else not_(r)
    if a.op == 'poly' or b.op == 'poly':
        a = a if a.op == 'poly' else coerce('r', a)
        b = b if b.op == 'poly' else coerce('r', b)
        return {'<': lt, '>': gt, '<=': le, '>=': ge}[op](a, b)
    if a.op == 'struct' and a.args[0] in ('pair', 'tuple') and b.op == 'struct':
        fa, fb = [x for _n, x in fields(a)], [x for _n, x in fields(b)]
        r = FALSE if op in '<>' else TRUE
        sop = op[0]
        for x, y in reversed(list(zip(fa, fb))):
            r = or_(gen_cmp(I, sop, x, y), and_(gen_cmp(I, '==', x, y), r))
        return r
    return mk_raw('bapp', ('op' + op, a, b))


for _o in ('==', '!=', '<', '>', '<=', '>='):
    OPF['operator' + _o] = op_cmp(_o)
    ITER['operator' + _o] = it_cmp(_o)
    OPT['operator' + _o] = op_cmp(_o)


def op_minus(I, node, fn, obj, args):
    a, b = argv(I, node, args, 0), argv(I, node, args, 1)
    if a.op == 'iter':
        return iter_op(I, '-', a, b)
    return NotImplemented


OPF['operator-'] = op_minus


def op_plus(I, node, fn, obj, args):
    a, b = argv(I, node, args, 0), argv(I, node, args, 1)
    if b.op == 'iter':
        return I.step(b, a)
    if a.op == 'str' and b.op == 'str':
        return string(a.args[0] + b.args[0])
    return concat(a, b)


def concat(a, b):
    if b.op == 'ite' and any(x.op == 'str' and not x.args[0] for x in b.args[1:]):
        return ite(b.args[0], concat(a, b.args[1]), concat(a, b.args[2]))
    if b.op == 'str' and not b.args[0]:
        return a
    if a.op == 'str' and not a.args[0]:
        return b
    return mk_raw('app', ('concat', a, b))


OPF['operator+'] = op_plus
OPF['operator<<'] = lambda I, node, fn, obj, args: args[0]


# sequences
SEQ = {}


def seqf(*ns):
    def d(f):
        for n in ns:
            SEQ[n] = f
        return f
    return d


def sv(I, node, obj):
    return I.val(obj)


@seqf('size', 'length')
def _(I, node, fn, obj, args):
    return length(sv(I, node, obj))


@seqf('empty')
def _(I, node, fn, obj, args):
    return le(length(sv(I, node, obj)), ZERO)


def declared_length(I, fn, v):
    t = I.prog.ty(fn['cls']) if fn and 'cls' in fn else {}
    return num(int(t['args'][1]['I'])) if t.get('name') == 'std::array' else length(v)


@seqf('operator[]', 'at')
def _(I, node, fn, obj, args):
    i = numarg(I, node, args, 0)
    v = I.val(obj)
    I.bound(and_(ge(i, ZERO), lt(i, declared_length(I, fn, v))), node, 'element of a sequence')
    if isinstance(obj, LV):
        return LV(extend(obj.p, si(i)))
    return sel(v, i)


@seqf('front', 'top')
def _(I, node, fn, obj, args):
    if fn['n'] == 'top':
        return SEQ['back'](I, node, fn, obj, args)
    I.bound(gt(length(I.val(obj)), ZERO), node, 'first element of a sequence')
    if isinstance(obj, LV):
        return LV(extend(obj.p, si(ZERO)))
    return sel(I.val(obj), ZERO)


@seqf('back')
def _(I, node, fn, obj, args):
    v = I.val(obj)
    i = sub(length(v), ONE)
    I.bound(ge(i, ZERO), node, 'last element of a sequence')
    if isinstance(obj, LV):
        return LV(extend(obj.p, si(i)))
    return sel(v, i)


@seqf('push_back', 'push', 'emplace_back', 'emplace')
def _(I, node, fn, obj, args):
    s = I.val(obj)
    cls = I.prog.ty(fn['cls'])
    et = cls['args'][0]['T'] if cls.get('args') else None
    if fn['n'].startswith('emplace'):
        if fn['n'] == 'emplace' and cls['name'] not in ('std::queue', 'std::stack'):
            return NotImplemented
        v = construct(I, node, et, args)
    else:
        v = I.val(args[0])
        if et is not None:
            v = I.convert(v, et)
    I.store_at(obj.p, seq_append(s, v))
    if fn['n'] == 'emplace_back':
        return LV(extend(obj.p, si(length(s))))
    return UNIT


@seqf('push_front')
def _(I, node, fn, obj, args):
    s = I.val(obj)
    v = I.val(args[0])
    I.store_at(obj.p, seq_insert(s, ZERO, v))
    return UNIT


def seq_insert(s, i, v):
    if s.op == 'list' and const(i) is not None:
        c = int(const(i))
        return mk_raw('list', s.args[:c] + (v,) + s.args[c:])
    return seq(add(length(s), ONE),
               lambda j: ite(lt(j, i), sel(s, j), ite(eqn(j, i), v, sel(s, sub(j, ONE)))))


def seq_erase(s, i, n=ONE):
    if s.op == 'list' and const(i) is not None and const(n) is not None:
        c = int(const(i))
        return mk_raw('list', s.args[:c] + s.args[c + int(const(n)):])
    return seq(sub(length(s), n), lambda j: ite(lt(j, i), sel(s, j), sel(s, add(j, n))))


@seqf('pop_back')
def _(I, node, fn, obj, args):
    s = I.val(obj)
    if s.op == 'list':
        I.store_at(obj.p, mk_raw('list', s.args[:-1]))
    else:
        I.store_at(obj.p, seq(sub(length(s), ONE), lambda j: sel(s, j)))
    return UNIT


@seqf('pop_front', 'pop')
def _(I, node, fn, obj, args):
    s = I.val(obj)
    if fn['n'] == 'pop' and I.prog.name(fn['cls']) == 'std::stack':
        return SEQ['pop_back'](I, node, fn, obj, args)
    I.store_at(obj.p, seq_erase(s, ZERO))
    return UNIT


@seqf('clear')
def _(I, node, fn, obj, args):
    I.store_at(obj.p, mk_raw('list', ()))
    return UNIT


@seqf('reserve', 'shrink_to_fit')
def _(I, node, fn, obj, args):
    return UNIT


@seqf('capacity', 'max_size')
def _(I, node, fn, obj, args):
    return atom(mk_raw('app', ('i:' + fn['n'], I.val(obj))))


@seqf('resize')
def _(I, node, fn, obj, args):
    s = I.val(obj)
    n = numarg(I, node, args, 0)
    cls = I.prog.ty(fn['cls'])
    d = I.val(args[1]) if len(args) > 1 else elem_default(I, cls)
    m = length(s)
    I.store_at(obj.p, seq(n, lambda j: ite(lt(j, m), sel(s, j), d)))
    return UNIT


@seqf('assign')
def _(I, node, fn, obj, args):
    a, b = argv(I, node, args, 0), I.val(args[1]) if len(args) > 1 else None
    if b is None:
        r = a
    elif a.op == 'iter':
        r = range_copy(I, a, b)
    else:
        r = seq(a, lambda j: b)
    I.store_at(obj.p, r)
    return UNIT


@seqf('fill')
def _(I, node, fn, obj, args):
    s = I.val(obj)
    v = I.val(args[0])
    I.store_at(obj.p, seq(length(s), lambda j: v))
    return UNIT


@seqf('operator=')
def _(I, node, fn, obj, args):
    I.store_at(obj.p, I.val(args[0]))
    return obj


@seqf('swap')
def _(I, node, fn, obj, args):
    a, b = I.val(obj), I.val(args[0])
    I.store_at(obj.p, b)
    I.store_at(args[0].p, a)
    return UNIT


@seqf('data', 'begin', 'cbegin')
def _(I, node, fn, obj, args):
    return mk_raw('iter', (I.materialise(obj).p, ZERO))


@seqf('end', 'cend')
def _(I, node, fn, obj, args):
    o = I.materialise(obj)
    return mk_raw('iter', (o.p, length(I.val(o))))


@seqf('rbegin', 'crbegin')
def _(I, node, fn, obj, args):
    return mk_raw('iter', (I.materialise(obj).p, ZERO, 'rev'))


@seqf('rend', 'crend')
def _(I, node, fn, obj, args):
    o = I.materialise(obj)
    return mk_raw('iter', (o.p, length(I.val(o)), 'rev'))


@seqf('insert')
def _(I, node, fn, obj, args):
    s = I.val(obj)
    a = [I.val(x) for x in args]
    pos = a[0].args[1]
    if len(a) == 2:
        v = a[1]
        I.store_at(obj.p, seq_insert(s, pos, v))
        return mk_raw('iter', (obj.p, pos))
    if len(a) == 3 and a[1].op == 'iter':
        r = range_copy(I, a[1], a[2])
        n = length(r)
        if s.op == 'list' and r.op == 'list' and const(pos) is not None:
            c = int(const(pos))
            I.store_at(obj.p, mk_raw('list', s.args[:c] + r.args + s.args[c:]))
            return mk_raw('iter', (obj.p, pos))
        I.store_at(obj.p, seq(add(length(s), n), lambda j: ite(
            lt(j, pos), sel(s, j), ite(lt(j, add(pos, n)), sel(r, sub(j, pos)), sel(s, sub(j, n))))))
        return mk_raw('iter', (obj.p, pos))
    return NotImplemented


@seqf('erase')
def _(I, node, fn, obj, args):
    s = I.val(obj)
    a = [I.val(x) for x in args]
    n = ONE if len(a) == 1 else sub(a[1].args[1], a[0].args[1])
    I.store_at(obj.p, seq_erase(s, a[0].args[1], n))
    return mk_raw('iter', (obj.p, a[0].args[1]))


# std::begin and friends
def free_seq(n):
    def f(I, node, fn, obj, args):
        g = SEQ.get(n)
        v = I.val(args[0])
        if ismat(v):
            return EIG[n](I, dict(node, k='mcall', obj=node['args'][0]), fn, args[0], [])
        return g(I, node, fn, args[0], [])
    return f


for _n in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'empty', 'data'):
    M['std::' + _n] = free_seq(_n)


@model('std::prev', 'std::next')
def _(I, node, fn, obj, args):
    v = I.val(args[0])
    d = numarg(I, node, args, 1) if len(args) > 1 else ONE
    if d.op != 'poly':
        d = ONE
    return I.step(v, d if fn['n'] == 'next' else neg(d))


@model('std::advance')
def _(I, node, fn, obj, args):
    v = I.val(args[0])
    I.store_at(args[0].p, I.step(v, numarg(I, node, args, 1)))
    return UNIT


@model('std::distance')
def _(I, node, fn, obj, args):
    return iter_op(I, '-', I.val(args[1]), I.val(args[0]))


# ------------------------------------------------------------------ algorithms
def it_range(I, a, b):
    """(container ptr, start, count, rev) of an iterator pair"""
    if a.op == 'ite' or b.op == 'ite' or a.op != 'iter':
        raise Unsupported('algorithm over conditional range')
    return a.args[0], a.args[1], sub(b.args[1], a.args[1]), len(a.args) > 2


def it_at(I, a, k):
    return LV(it_lv(I, I.step(a, k)))


def pure(I, f, n=None):
    """evaluate f (python) at a symbolic index without keeping effects; returns a lambda term"""
    v = fresh('i', 'k')
    st = loops.snapshot(I)
    ex = I.exits
    nb = len(I.bounds)
    I.exits = []
    I.pc.append(ge(atom(v), ZERO) if n is None else and_(ge(atom(v), ZERO), lt(atom(v), n)))
    try:
        r = f(atom(v))
        if I.exits:
            raise Unsupported('exit inside a predicate')
    finally:
        I.pc.pop()
        I.exits = ex
        I.lift(nb, ex)
        I.store, I.alive = st[0], st[2]
    return TM.close(v, r)


def predcall(I, node, c, *args):
    ta = node.get('fn', {}).get('targs', [])
    r = I.call_value(dict(node, t=-1, fn={'id': '?'}, ftargs=ta), c, list(args))
    return I.val(r)


def alg_find(kind):
    def f(I, node, fn, obj, args):
        a, b = I.val(args[0]), I.val(args[1])
        p, s, n, rev = it_range(I, a, b)
        c = I.val(args[2])

        def test(k):
            x = it_at(I, a, k)
            if kind in ('find', 'count'):
                return gen_cmp(I, '==', I.val(x), c)
            r = truth(predcall(I, node, c, x))
            return not_(r) if kind in ('find_if_not', 'all_of') else r
        l = pure(I, test)
        if kind in ('count', 'count_if'):
            return TM.sum_(n, lam(lambda k: b2n(TM.app(l, k))))
        fi = TM.first(n, l)
        if kind.startswith('find'):
            return I.step(a, fi)
        if kind == 'any_of':
            return lt(fi, n)
        return ge(fi, n)
    return f


for _n in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count', 'count_if'):
    M['std::' + _n] = alg_find(_n)


def bool_loop(I, node, n, body):
    loops.run(I, None, body, lambda: None, n, node)


@model('std::for_each')
def _(I, node, fn, obj, args):
    a, b, c = [I.val(x) for x in args[:3]]
    p, s, n, rev = it_range(I, a, b)
    bool_loop(I, node, n, lambda k: I.call_value(node, c, [it_at(I, a, k)]))
    return c


def out_put(I, cell, v):
    """write through an output iterator held in a location"""
    o = I.val(cell)
    if o.op == 'backins':
        s = I.load(o.args[0])
        I.store_at(o.args[0], seq_append(s, v))
        return
    I.store_at(it_lv(I, o), v)
    I.store_at(cell.p, I.step(o, ONE))


@model('std::back_inserter')
def _(I, node, fn, obj, args):
    return mk_raw('backins', (args[0].p,))


@model('std::transform')
def _(I, node, fn, obj, args):
    a, b = I.val(args[0]), I.val(args[1])
    p, s, n, rev = it_range(I, a, b)
    binary = len(args) == 5
    if binary:
        a2 = I.val(args[2])
        cell = LV(I.new_loc(I.val(args[3]), None, 'out'))
        c = I.val(args[4])
    else:
        cell = LV(I.new_loc(I.val(args[2]), None, 'out'))
        c = I.val(args[3])

    def body(k):
        xs = [it_at(I, a, k)]
        if binary:
            xs.append(it_at(I, a2, k))
        out_put(I, cell, I.val(I.call_value(node, c, xs)))
    bool_loop(I, node, n, body)
    return I.val(cell)


def alg_copy(I, node, fn, obj, args):
    a, b = I.val(args[0]), I.val(args[1])
    p, s, n, rev = it_range(I, a, b)
    cell = LV(I.new_loc(I.val(args[2]), None, 'out'))
    pred = I.val(args[3]) if len(args) > 3 else None

    def body(k):
        x = it_at(I, a, k)
        if pred is None:
            out_put(I, cell, I.val(x))
        else:
            c = truth(predcall(I, node, pred, x))
            if fn['n'] == 'remove_copy_if':
                c = not_(c)
            I.branch(c, lambda: out_put(I, cell, I.val(x)), lambda: None)
    bool_loop(I, node, n, body)
    return I.val(cell)


for _n in ('copy', 'copy_if', 'remove_copy_if'):
    M['std::' + _n] = alg_copy


@model('std::copy_n')
def _(I, node, fn, obj, args):
    a, n = I.val(args[0]), numarg(I, node, args, 1)
    cell = LV(I.new_loc(I.val(args[2]), None, 'out'))
    bool_loop(I, node, n, lambda k: out_put(I, cell, I.val(it_at(I, a, k))))
    return I.val(cell)


@model('std::fill', 'std::fill_n')
def _(I, node, fn, obj, args):
    a = I.val(args[0])
    if fn['n'] == 'fill':
        n = it_range(I, a, I.val(args[1]))[2]
    else:
        n = numarg(I, node, args, 1)
    v = I.val(args[2])
    if a.op == 'backins':
        cell = LV(I.new_loc(a, None, 'out'))
        bool_loop(I, node, n, lambda k: out_put(I, cell, v))
        return UNIT
    bool_loop(I, node, n, lambda k: I.store_at(it_lv(I, I.step(a, k)), v))
    return UNIT


@model('std::iota')
def _(I, node, fn, obj, args):
    a, b = I.val(args[0]), I.val(args[1])
    n = it_range(I, a, b)[2]
    v = numarg(I, node, args, 2)
    bool_loop(I, node, n, lambda k: I.store_at(it_lv(I, I.step(a, k)), add(v, k)))
    return UNIT


@model('std::generate')
def _(I, node, fn, obj, args):
    a, b = I.val(args[0]), I.val(args[1])
    n = it_range(I, a, b)[2]
    c = I.val(args[2])
    bool_loop(I, node, n, lambda k: I.store_at(it_lv(I, I.step(a, k)), I.val(I.call_value(node, c, []))))
    return UNIT


@model('std::accumulate', 'std::reduce')
def _(I, node, fn, obj, args):
    a, b = I.val(args[0]), I.val(args[1])
    n = it_range(I, a, b)[2]
    acc = LV(I.new_loc(argv(I, node, args, 2), fn['rt'], 'acc'))
    c = I.val(args[3]) if len(args) > 3 else None

    def body(k):
        x = it_at(I, a, k)
        if c is None:
            av = I.val(acc)
            xv = I.val(x)
            if av.op == 'poly':
                k_ = I.prog.scalar(fn['rt']) or 'r'
                r = add(av, coerce(k_, xv) if xv.op != 'poly' else xv)
            else:
                r = madd(av, xv)
        else:
            r = I.val(I.call_value(node, c, [acc, x]))
        I.store_at(acc.p, r)
    bool_loop(I, node, n, body)
    return I.val(acc)


@model('std::inner_product')
def _(I, node, fn, obj, args):
    a, b, c = I.val(args[0]), I.val(args[1]), I.val(args[2])
    n = it_range(I, a, b)[2]
    acc = LV(I.new_loc(argv(I, node, args, 3), fn['rt'], 'acc'))
    if len(args) > 4:
        return NotImplemented

    def num_(x):
        v = I.val(x)
        return v if v.op == 'poly' else coerce('r', v)
    bool_loop(I, node, n, lambda k: I.store_at(acc.p, add(
        I.val(acc), mul(num_(it_at(I, a, k)), num_(it_at(I, c, k))))))
    return I.val(acc)


PERM = {}   # rearranged sequence of numbers -> the sequence it was made from


def key_lambda(I, node, c, cont, kind='<'):
    """comparator as a two-argument lambda over element values"""
    x, y = fresh('o', 'x'), fresh('o', 'y')
    return x, y


@model('std::sort', 'std::stable_sort', 'std::partial_sort', 'std::nth_element')
def _(I, node, fn, obj, args):
    a = I.val(args[0])
    b = I.val(args[-1]) if fn['n'] == 'nth_element' and len(args) == 3 else I.val(args[1])
    c = None
    nth = None
    if fn['n'] == 'nth_element':
        nth = I.val(args[1])
        b = I.val(args[2])
        c = I.val(args[3]) if len(args) > 3 else None
    elif fn['n'] == 'partial_sort':
        return NotImplemented
    else:
        c = I.val(args[2]) if len(args) > 2 else None
    p, s, n, rev = it_range(I, a, b)
    cont = I.load(p)
    src = seq(n, lambda j: cont_elem(I, cont, add(s, j)))
    x, y = fresh('o', 'x'), fresh('o', 'y')
    et = elem_type(I, node, fn, args)
    ex_, ey_ = mk_raw('app', ('elt', x)), mk_raw('app', ('elt', y))
    xv, yv = (I.reflect(ex_, et), I.reflect(ey_, et)) if et is not None else (ex_, ey_)
    std = gen_cmp(I, '<', xv, yv) if et is not None and I.prog.scalar(et) else None
    if c is None:
        cmp_ = mk_raw('bapp', ('op<', ex_, ey_)) if std is None else std
    else:
        st = loops.snapshot(I)
        ex = I.exits
        I.exits = []
        r = truth(predcall(I, node, c, LV(I.new_loc(xv, et, 'x')), LV(I.new_loc(yv, et, 'y'))))
        if I.exits:
            raise Unsupported('exit in comparator')
        I.exits = ex
        I.store, I.alive = st[0], st[2]
        cmp_ = r
    l = TM.close(x, TM.close(y, cmp_))
    total = std is not None and cmp_ in (std, gen_cmp(I, '<', yv, xv))
    base = PERM.get(src, src) if total else src
    if nth is None:
        t = mk_raw('app', ('sorted', base, l))
        res = seq(n, lambda j: sel(t, j))
    else:
        # only the chosen element is in its place, the others are in some order
        k = sub(nth.args[1], s)
        so = mk_raw('app', ('sorted', base, l))
        t = mk_raw('app', ('nth', src, k, l))
        res = seq(n, lambda j: ite(eqn(j, k), sel(so, j), sel(t, j))) if total else \
            seq(n, lambda j: sel(t, j))
    if total:
        PERM[res] = base
    if s is ZERO and n is cont_len(cont):
        I.store_at(p, res)
    else:
        I.store_at(p, seq(cont_len(cont), lambda j: ite(and_(ge(j, s), lt(j, add(s, n))),
                                                        sel(t, sub(j, s)), sel(cont, j))))
    return UNIT


def elem_type(I, node, fn, args):
    """value type of the iterators an algorithm is instantiated with"""
    for ta in fn.get('targs', []):
        if 'T' in ta:
            t = I.prog.ty(ta['T'])
            import re
            for a in t.get('args', []):
                if 'T' in a:
                    u = I.prog.ty(a['T'])
                    if u['k'] == 'ptr':
                        return u['to']
            if t['k'] == 'ptr':
                return t['to']
    return None


@model('std::lower_bound', 'std::upper_bound', 'std::partition_point')
def _(I, node, fn, obj, args):
    a, b = I.val(args[0]), I.val(args[1])
    p, s, n, rev = it_range(I, a, b)
    key = args[2]
    c = I.val(args[3]) if len(args) > 3 else None
    low = fn['n'] == 'lower_bound'

    def test(k):
        x = it_at(I, a, k)
        if c is None:
            r = gen_cmp(I, '<', I.val(x), I.val(key)) if low else gen_cmp(I, '<', I.val(key), I.val(x))
        else:
            r = truth(predcall(I, node, c, x, key) if low else predcall(I, node, c, key, x))
        return not_(r) if low else r
    return I.step(a, TM.first(n, pure(I, test)))


@model('std::max_element', 'std::min_element')
def _(I, node, fn, obj, args):
    a, b = I.val(args[0]), I.val(args[1])
    p, s, n, rev = it_range(I, a, b)
    best = LV(I.new_loc(ZERO, None, 'best'))
    I.loctype[best.p.args[0]] = None
    c = I.val(args[2]) if len(args) > 2 else None

    def body(k):
        x = I.val(it_at(I, a, k))
        y = I.val(it_at(I, a, I.val(best)))
        if c is not None:
            less = truth(predcall(I, node, c, it_at(I, a, I.val(best)), it_at(I, a, k))) \
                if fn['n'] == 'max_element' else \
                truth(predcall(I, node, c, it_at(I, a, k), it_at(I, a, I.val(best))))
        else:
            less = gen_cmp(I, '<', y, x) if fn['n'] == 'max_element' else gen_cmp(I, '<', x, y)
        I.branch(less, lambda: I.store_at(best.p, k), lambda: None)
    bool_loop(I, node, n, body)
    return I.step(a, I.val(best))


@model('boost::adaptors::reverse')
def _(I, node, fn, obj, args):
    s = I.val(args[0])
    n = length(s)
    return seq(n, lambda j: sel(s, sub(sub(n, ONE), j)))


@model('std::reverse')
def _(I, node, fn, obj, args):
    a, b = I.val(args[0]), I.val(args[1])
    p, s, n, rev = it_range(I, a, b)
    cont = I.load(p)
    I.store_at(p, seq(cont_len(cont), lambda j: ite(
        and_(ge(j, s), lt(j, add(s, n))), sel(cont, sub(sub(add(add(s, s), n), ONE), j)), sel(cont, j))))
    return UNIT


@model('std::remove_if', 'std::remove')
def _(I, node, fn, obj, args):
    a, b = I.val(args[0]), I.val(args[1])
    p, s, n, rev = it_range(I, a, b)
    cont = I.load(p)
    out = LV(I.new_loc(mk_raw('list', ()), None, 'kept'))
    c = I.val(args[2])

    def body(k):
        x = it_at(I, a, k)
        t = gen_cmp(I, '==', I.val(x), c) if fn['n'] == 'remove' else truth(predcall(I, node, c, x))
        xv = I.val(x)
        I.branch(t, lambda: None, lambda: I.store_at(out.p, seq_append(I.val(out), xv)))
    bool_loop(I, node, n, body)
    r = I.val(out)
    m = length(r)
    I.store_at(p, seq(length(cont), lambda j: ite(and_(ge(j, s), lt(j, add(s, m))), sel(r, sub(j, s)),
                                                  sel(cont, j))))
    return mk_raw('iter', (p, add(s, m)))


@model('std::equal')
def _(I, node, fn, obj, args):
    a, b, c = I.val(args[0]), I.val(args[1]), I.val(args[2])
    n = it_range(I, a, b)[2]
    l = pure(I, lambda k: not_(gen_cmp(I, '==', I.val(it_at(I, a, k)), I.val(it_at(I, c, k)))))
    return ge(TM.first(n, l), n)


@model('std::shuffle', 'std::random_shuffle')
def _(I, node, fn, obj, args):
    a, b = I.val(args[0]), I.val(args[1])
    p, s, n, rev = it_range(I, a, b)
    cont = I.load(p)
    t = mk_raw('app', ('shuffled', cont))
    I.store_at(p, seq(length(cont), lambda j: sel(t, j)))
    return UNIT


@model('std::to_string')
def _(I, node, fn, obj, args):
    return mk_raw('app', ('to_string', I.val(args[0])))


@model('std::invoke')
def _(I, node, fn, obj, args):
    return I.call_value(node, I.val(args[0]), args[1:])


# ------------------------------------------------------------------ maps: sorted sequences of pairs
MAPF = {}


def map_empty():
    return mk_raw('list', ())


def map_pos(I, m, key, op='<'):
    """first position whose key is not less than key (op '<') / greater than key (op '<=')"""
    n = length(m)
    if op == '<':
        l = lam(lambda k: not_(gen_cmp(I, '<', fld(sel(m, k), 'first'), key)))
    else:
        l = lam(lambda k: gen_cmp(I, '<', key, fld(sel(m, k), 'first')))
    return TM.first(n, l)


def typed_key(I, fn, key):
    cls = I.prog.ty(fn['cls'])
    a = cls.get('args', [])
    if a and 'T' in a[0]:
        return I.reflect(key, a[0]['T'])
    return key


def map_has(I, m, pos, key):
    return and_(lt(pos, length(m)), gen_cmp(I, '==', fld(sel(m, pos), 'first'), key))


def mapf(*ns):
    def d(f):
        for n in ns:
            MAPF[n] = f
        return f
    return d


for _n in ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'clear', 'operator=',
           'swap'):
    MAPF[_n] = SEQ[_n]


def map_key_hint(I, m, fn):
    return m


@mapf('find')
def _(I, node, fn, obj, args):
    m = I.val(obj)
    key = typed_key(I, fn, I.val(args[0]))
    pos = map_pos(I, m, key)
    o = I.materialise(obj)
    return mk_raw('iter', (o.p, ite(map_has(I, m, pos, key), pos, length(m))))


@mapf('count', 'contains')
def _(I, node, fn, obj, args):
    m = I.val(obj)
    key = typed_key(I, fn, I.val(args[0]))
    h = map_has(I, m, map_pos(I, m, key), key)
    return h if fn['n'] == 'contains' else b2n(h)


@mapf('lower_bound')
def _(I, node, fn, obj, args):
    m = I.val(obj)
    return mk_raw('iter', (I.materialise(obj).p, map_pos(I, m, typed_key(I, fn, I.val(args[0])))))


@mapf('upper_bound')
def _(I, node, fn, obj, args):
    m = I.val(obj)
    return mk_raw('iter', (I.materialise(obj).p, map_pos(I, m, typed_key(I, fn, I.val(args[0])), '<=')))


@mapf('at')
def _(I, node, fn, obj, args):
    m = I.val(obj)
    key = typed_key(I, fn, I.val(args[0]))
    pos = map_pos(I, m, key)
    I.guard_exit(not_(map_has(I, m, pos, key)), 'throw', mk_raw('exc', ('std::out_of_range', UNIT)))
    o = I.materialise(obj)
    return LV(extend(extend(o.p, si(pos)), sf('second')))


def map_insert(m, pos, has, pair):
    return ite(has, m, seq_insert(m, pos, pair))


@mapf('operator[]')
def _(I, node, fn, obj, args):
    m = I.val(obj)
    key = typed_key(I, fn, I.val(args[0]))
    pos = map_pos(I, m, key)
    has = map_has(I, m, pos, key)
    cls = I.prog.ty(fn['cls'])
    vt = cls['args'][1]['T']
    d = I.zero_uninit(I.default_value(vt), vt)
    I.store_at(obj.p, map_insert(m, pos, has, struct('pair', [('first', key), ('second', d)])))
    return LV(extend(extend(obj.p, si(pos)), sf('second')))


@mapf('insert', 'emplace', 'try_emplace', 'insert_or_assign')
def _(I, node, fn, obj, args):
    m = I.val(obj)
    if len(args) == 1:
        pr = as_pair(I.val(args[0]))
    else:
        pr = struct('pair', [('first', I.val(args[0])), ('second', I.val(args[1]))])
    key = typed_key(I, fn, fld(pr, 'first'))
    pos = map_pos(I, m, key)
    has = map_has(I, m, pos, key)
    new = map_insert(m, pos, has, pr)
    if fn['n'] == 'insert_or_assign':
        old = struct('pair', [('first', fld(sel(m, pos), 'first')), ('second', fld(pr, 'second'))])
        new = ite(has, seq_write(m, pos, old), new)
    I.store_at(obj.p, new)
    return struct('pair', [('first', mk_raw('iter', (obj.p, pos))), ('second', not_(has))])


@mapf('erase')
def _(I, node, fn, obj, args):
    m = I.val(obj)
    a = I.val(args[0])
    if a.op == 'iter':
        n = ONE if len(args) == 1 else sub(I.val(args[1]).args[1], a.args[1])
        I.store_at(obj.p, seq_erase(m, a.args[1], n))
        return mk_raw('iter', (obj.p, a.args[1]))
    key = typed_key(I, fn, a)
    pos = map_pos(I, m, key)
    has = map_has(I, m, pos, key)
    I.store_at(obj.p, ite(has, seq_erase(m, pos), m))
    return b2n(has)


def map_get(I, v, key):
    raise Unsupported('map path')


def map_set(I, v, key, x):
    raise Unsupported('map path')


# ------------------------------------------------------------------ ranges
def ranges_call(I, node, fn, obj, args):
    q, n = fn['q'], fn['n']
    if n == 'operator()':
        o = I.val(obj)
        if o.op == 'rangeobj':
            return range_obj_call(I, node, o.args[0], args)
    if n == 'operator|':
        a, b = args[0], I.val(args[1])
        return range_pipe(I, node, a, b)
    if n in ('to_vector', 'to'):
        if args:
            return to_seq(I, args[0])
        return mk_raw('rview', ('to',))
    if n in ('begin', 'end', 'size'):
        pass
    # conversions and accessors of views
    if obj is not None and n in ('size',):
        return length(I.val(obj))
    if n == 'operator ' or fn.get('conv'):
        return I.val(obj)
    if n in ('get',):
        return M['std::get'](I, node, fn, obj, args)
    return NotImplemented


def to_seq(I, x):
    v = I.val(x)
    if ismat(v):
        return seq(cont_len(v), lambda j: vec_ent(v, j))
    return v


def range_obj_call(I, node, q, args):
    n = q.rsplit('::', 1)[1]
    vs = [I.val(a) for a in args]
    if n == 'ints' or n == 'iota':
        lo, hi = [v if v.op == 'poly' else coerce('z', v) for v in vs[:2]]
        if n == 'iota' and len(vs) == 1:
            raise Unsupported('unbounded iota')
        return seq(sub(hi, lo), lambda j: add(lo, j))
    if n == 'closed_ints' or n == 'closed_iota':
        lo, hi = vs
        return seq(add(sub(hi, lo), ONE), lambda j: add(lo, j))
    if n in ('transform', 'filter', 'take', 'drop', 'reverse', 'enumerate', 'remove_if'):
        if len(vs) == 1 and n not in ('reverse', 'enumerate'):
            return mk_raw('rview', (n, vs[0]))
        if n in ('reverse', 'enumerate'):
            return range_pipe(I, node, args[0], mk_raw('rangeobj', (q,)))
        return range_pipe(I, node, args[0], mk_raw('rview', (n, vs[1])))
    if n in ('to_vector', 'to'):
        return to_seq(I, args[0])
    if n == 'all' or n == 'ref':
        return args[0]
    if n in ('distance', 'size'):
        return length(to_seq(I, args[0]))
    if n == 'accumulate':
        s = to_seq(I, args[0])
        init = vs[1]
        return add(init, TM.sum_(length(s), lam(lambda k: coerce('r', sel(s, k)))))
    if n in ('any_of', 'all_of', 'none_of', 'count_if', 'find_if'):
        o = I.materialise(args[0])
        s = to_seq(I, o)
        a, b = mk_raw('iter', (o.p, ZERO)), mk_raw('iter', (o.p, length(s)))
        return alg_find(n)(I, node, {'n': n, 'q': n}, None, [a, b, vs[1]])
    if n == 'for_each':
        o = I.materialise(args[0])
        s = to_seq(I, o)
        bool_loop(I, node, length(s), lambda k: I.call_value(node, vs[1], [LV(extend(o.p, si(k)))]))
        return UNIT
    if n in ('sort', 'stable_sort'):
        o = args[0]
        s = I.val(o)
        a, b = mk_raw('iter', (o.p, ZERO)), mk_raw('iter', (o.p, length(s)))
        return M['std::sort'](I, node, {'n': n, 'q': n, 'targs': []}, None, [a, b] + list(args[1:]))
    raise Unsupported('range ' + q)


def range_pipe(I, node, a, b):
    s = to_seq(I, a)
    if b.op == 'rangeobj':
        n = b.args[0].rsplit('::', 1)[1]
        if n in ('to_vector',):
            return s
        if n == 'enumerate':
            return seq(length(s), lambda j: struct('pair', [('first', j), ('second', sel(s, j))]))
        if n == 'reverse':
            m = length(s)
            return seq(m, lambda j: sel(s, sub(sub(m, ONE), j)))
        if n == 'all':
            return s
        raise Unsupported('range ' + n)
    if b.op == 'rview':
        n = b.args[0]
        if n == 'to':
            return s
        f = b.args[1]
        if n == 'transform':
            o = LV(I.new_loc(s, None, 'rng'))
            out = LV(I.new_loc(mk_raw('list', ()), None, 'view'))

            def body(k):
                x = LV(extend(o.p, si(k))) if not isinstance(a, LV) or ismat(I.val(a)) else \
                    LV(extend(a.p, si(k)))
                r = I.val(I.call_value(node, f, [x]))
                I.store_at(out.p, seq_append(I.val(out), r))
            bool_loop(I, node, length(s), body)
            return I.val(out)
        if n in ('filter', 'remove_if'):
            o = LV(I.new_loc(s, None, 'rng'))
            out = LV(I.new_loc(mk_raw('list', ()), None, 'view'))

            def body2(k):
                x = LV(extend(o.p, si(k)))
                c = truth(I.val(I.call_value(node, f, [x])))
                if n == 'remove_if':
                    c = not_(c)
                xv = I.val(x)
                I.branch(c, lambda: I.store_at(out.p, seq_append(I.val(out), xv)), lambda: None)
            bool_loop(I, node, length(s), body2)
            return I.val(out)
        if n == 'take':
            return seq(TM.min_(f, length(s)), lambda j: sel(s, j))
        if n == 'drop':
            d = TM.min_(f, length(s))
            return seq(sub(length(s), d), lambda j: sel(s, add(j, d)))
    raise Unsupported('range pipe ' + show(b))


def fmt_call(I, node, fn, obj, args):
    return mk_raw('app', ('fmt', UNIT) + tuple(I.reify(a) for a in args))


def cloud_type(I, rt):
    try:
        t = I.prog.ty(rt)
    except (KeyError, TypeError):
        return False
    return t['k'] == 'rec' and t['name'] == 'pcl::PointCloud'


def range_for(I, s, x):
    fr = I.frames[-1]
    v = I.val(x)
    rt = I.prog.strip_ref(s['rt'])
    v = I.reflect(v, rt)
    d = s['var']
    t = I.prog.ty(d['t'])
    isref = t['k'] == 'ref'
    lvalue = isinstance(x, LV)
    if cloud_type(I, rt):
        # begin() and end() of a cloud are those of its points
        if lvalue:
            x = LV(extend(x.p, sf('points')))
        v = fld(v, 'points')
    if ismat(v):
        if lvalue and v is not I.val(x):
            I.store_at(x.p, v)
        n = cont_len(v)
    elif v.op == 'rangeobj' or v.op == 'undef':
        raise Unsupported('range-for over ' + show(v))
    else:
        n = length(v)
    if not lvalue:
        x = I.materialise(v)

    def body(k):
        p = extend(x.p, si(k))
        if isref:
            fr.env[d['id']] = p
            e = I.load(p)
            if e.op == 'refv':
                fr.env[d['id']] = e.args[0]
        else:
            fr.env[d['id']] = I.new_loc(I.reflect(I.load(p), d['t']), d['t'], d['n'])
        if 'bindings' in d:
            base = fr.env[d['id']]
            for i, b in enumerate(d['bindings']):
                if b.get('field'):
                    y = I.ev(b['e'])
                else:
                    y = tuple_elem(I, base, i, d['t'])
                fr.env[b['id']] = y.p if isinstance(y, LV) else I.new_loc(y, None, b['n'])
        I.stmt(s['b'])
    loops.run(I, None, body, lambda: None, n, s)
