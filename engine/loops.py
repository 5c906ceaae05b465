"""Loop summarisation: recurrences of the loop-carried locations are solved in closed form where the
shape allows it (inductions, sums, searches, element-wise writes, appends); what remains is kept as a
fold term over the exact body transformer."""
from terms import *
import re
import terms as TM
from interp import Unsupported, LV, ptr, extend, sf, si, seq_write, seq_append
from decide import Ctx, contains, has_ite, _HI


class Comp:
    __slots__ = ('path', 'v', 'init', 'next', 'kind')


import os
DEBUG = bool(os.environ.get("VERIF_DEBUG"))
UNROLL = 70


def run(I, cond, body, inc, bound, node, item_list=None):
    """cond/body/inc manipulate I; bound: trip count (poly) for counted loops"""
    if not I.alive:
        return
    if try_unroll(I, cond, body, inc, bound):
        return
    symbolic(I, cond, body, inc, bound, node)


def snapshot(I):
    return (dict(I.store), list(I.exits), I.alive, list(I.assumes), len(I.pc), I.nloc,
            dict(I.statics), len(I.bounds))


def restore(I, s):
    I.store, I.exits, I.alive, I.assumes = dict(s[0]), list(s[1]), s[2], list(s[3])
    del I.pc[s[4]:]
    I.statics = dict(s[6])
    del I.bounds[s[7]:]


def try_unroll(I, cond, body, inc, bound):
    snap = snapshot(I)
    if bound is not None:
        c = const(bound)
        if c is None or c > UNROLL:
            return False
    logs = [len(w) for w in I.wlogs]
    n = 0
    outer_exits = I.exits
    brk = []       # break exits accumulated
    ok = True
    I.exits = []
    while True:
        if bound is not None:
            if n >= const(bound):
                break
        else:
            c = cond()
            if c is FALSE:
                break
            if c is not TRUE:
                ok = False
                break
        if n > UNROLL:
            ok = False
            break
        ex_before = I.exits
        nb = len(I.bounds)
        I.exits = []
        body(num(n))
        e, alive, st = I.exits, I.alive, I.store
        got, others = I.outcome(e, alive, st, ('cont',))
        I.exits = ex_before
        I.lift(nb, ex_before)
        I.exits += others
        if got is None:
            I.alive = False
            break
        I.alive, I.store = True, got[1]
        inc()
        n += 1
        if I.exits and n > 12:
            ok = False
            break
    if ok and not (bound is None and n == 0 and False):
        e, alive, st = I.exits, I.alive, I.store
        I.exits = outer_exits
        I.lift(snap[7], outer_exits)
        got, others = I.outcome(e, alive, st, ('break',))
        I.exits += others
        if got is None:
            I.alive = False
        else:
            I.alive, I.store = True, got[1]
        return True
    restore(I, snap)
    for w, l in zip(I.wlogs, logs):
        del w[l:]
    return False


# ------------------------------------------------------------------ havoc
def prefix(p, I=None):
    """the part of a written path that is a fixed object (field selectors only)"""
    sels = []
    for s in p.args[1:]:
        if s.op == 'sf':
            sels.append(s)
        elif s.op == 'so':
            sels.append(s)
        elif s.op == 'si' and const(s.args[0]) is not None and I is not None and \
                fixed_array(I, mk_raw('ptr', (p.args[0],) + tuple(sels))):
            sels.append(s)
        else:
            break
    return mk_raw('ptr', (p.args[0],) + tuple(sels))


def type_of_path(I, p):
    ty = I.loctype.get(p.args[0])
    for s in p.args[1:]:
        if ty is None:
            return None
        if s.op == 'sf':
            ty = I.field_type(ty, s.args[0])
        elif s.op == 'si' and I.prog.ty(ty).get('k') == 'arr':
            ty = I.prog.ty(ty)['of']
        else:
            return None
    return ty


def fixed_array(I, p):
    ty = type_of_path(I, p)
    return ty is not None and I.prog.ty(ty).get('k') == 'arr'


def havoc(I, v, name, ty, leaves):
    """a symbolic value of the same shape; leaves collects (var, init)"""
    op = v.op
    k = I.prog.scalar(ty) if ty is not None else None
    if op == 'poly' or (k in ('z', 'r', 'rf') and op in ('uninit', 'undef', 'ite', 'fld', 'sel', 'var',
                                                         'app')):
        if k is None:
            k = 'z' if (is_int(v) and const(v) is None) else 'r'
        x = fresh('i' if k == 'z' else 'r', name)
        leaves.append((x, v if op == 'poly' else coerce(k, v)))
        return atom(x)
    if is_bool(v) or k == 'p':
        x = fresh('b', name)
        leaves.append((x, v if is_bool(v) else coerce('p', v)))
        return x
    if op == 'struct':
        r = I.prog.records.get('~' + v.args[0])
        ft = {f['n']: f['t'] for f in I.prog.fields(r)} if r else {}
        if v.args[0] == 'Quat':
            return struct('Quat', [(n, havoc_num(x, name + '.' + n, leaves)) for n, x in fields(v)])
        return struct(v.args[0], [(n, havoc(I, x, name + '.' + n, ft.get(n), leaves))
                                  for n, x in fields(v)])
    if op == 'mat':
        return mk_raw('mat', v.args[:2] + tuple(
            havoc_num(e, '%s(%d)' % (name, i), leaves) for i, e in enumerate(v.args[2:])))
    if op == 'opt':
        h = fresh('b', name + '.has')
        leaves.append((h, v.args[0]))
        et = None
        if ty is not None:
            a = I.prog.targs(ty)
            et = a[0]['T'] if a else None
        return mk_raw('opt', (h, havoc(I, v.args[1], name + '.val', et, leaves)))
    if op == 'ptr' and any(s.op == 'si' for s in v.args[1:]):
        sels = []
        for i, s in enumerate(v.args[1:]):
            if s.op == 'si':
                sels.append(si(havoc_int(s.args[0], name + '.i%d' % i, leaves)))
            else:
                sels.append(s)
        return mk_raw('ptr', (v.args[0],) + tuple(sels))
    if op == 'iter':
        return mk_raw('iter', (v.args[0], havoc_int(v.args[1], name + '.pos', leaves)) + v.args[2:])
    x = fresh('o', name)
    leaves.append((x, v))
    if op == 'nc' or op == 'mlam':
        if op == 'mlam' and TM.mcols(v) is ONE:
            return mk_raw('nc', (atom(mk_raw('rows', (x,))), ONE, mk_raw('w', (ONE, x))))
        return mk_raw('nc', (atom(mk_raw('rows', (x,))), atom(mk_raw('cols', (x,))),
                             mk_raw('w', (ONE, x))))
    if k:
        return coerce(k, x)
    return x


def havoc_num(v, name, leaves):
    x = fresh('r', name)
    leaves.append((x, v if v.op == 'poly' else coerce('r', v)))
    return atom(x)


def havoc_int(v, name, leaves):
    x = fresh('i', name)
    leaves.append((x, v))
    return atom(x)


def collect(shape, v, out):
    """parallel walk of the havocked value and the value after the body: var -> next value"""
    op = shape.op
    if op == 'poly':
        a = as_atom(shape)
        while a is not None and a.op in ('z', 'r', 'rf'):
            a = a.args[0]
        if v.op != 'poly':
            v = coerce('z' if a.args[1] == 'i' else 'r', v)
        out[a] = v
        return
    if op == 'p':
        out[shape.args[0]] = v
        return
    if op == 'var':
        if shape.args[1] == 'b' and not is_bool(v):
            v = coerce('p', v)
        out[shape] = v
        return
    if op == 'struct':
        for n, s in fields(shape):
            collect(s, fld(v, n), out)
        return
    if op == 'mat':
        if v.op == 'mat' and v.args[:2] == shape.args[:2]:
            for s, x in zip(shape.args[2:], v.args[2:]):
                collect(s, x, out)
            return
        r, c = shape.args[:2]
        if v.op in ('nc', 'mlam', 'ite'):
            for i in range(r):
                for j in range(c):
                    collect(shape.args[2 + i * c + j], ment(v, num(i), num(j)), out)
            return
        raise Unsupported('matrix changes shape in loop')
    if op == 'opt':
        collect(shape.args[0], opt_has(v), out)
        collect(shape.args[1], opt_val(v), out)
        return
    if op == 'ptr':
        if v.op == 'ptr' and len(v.args) == len(shape.args) and v.args[0] is shape.args[0]:
            for s, x in zip(shape.args[1:], v.args[1:]):
                if s.op == 'si':
                    collect(s.args[0], x.args[0], out)
                elif s is not x:
                    raise Unsupported('pointer changes object in loop')
            return
        raise Unsupported('pointer changes object in loop')
    if op == 'iter':
        if v.op == 'iter' and v.args[0] is shape.args[0]:
            collect(shape.args[1], v.args[1], out)
            return
        raise Unsupported('iterator changes container in loop')
    if op == 'nc':
        out[shape.args[2].args[1]] = v
        return
    raise Unsupported('loop-carried ' + op)


def preset(I, leaves, nxt, k):
    """carried values whose shape is known beforehand: steady inductions and containers of constant
    length.  index of the leaf -> value at iteration k as a function of the carried variable"""
    mine = {v for v, _i in leaves}
    out = {}
    for n, (v, init) in enumerate(leaves):
        x = nxt.get(v, v)
        if v.args[1] in 'ir':
            d = sub(x, atom(v)) if x.op == 'poly' else None
            if d is not None and k not in d.fv and not any(u in d.fv for u in mine):
                out[n] = ('ind', d)
        elif v.args[1] == 'o' and seqlike(x) and not is_self(x, v):
            d = sub(length(x), atom(mk_raw('len', (v,))))
            if d is ZERO:
                out[n] = ('len', None)
    return out


def preset_value(kind, v, init, kp):
    if kind[0] == 'ind':
        return add(init, mul(kp, kind[1]))
    return seq(length(init), lambda j: sel(v, j))


def facts(I, extra=()):
    """what is known on the current path, as a context"""
    return facts_of(list(I.assumes) + list(I.pc) + list(extra))


def facts_of(ts):
    ctx = Ctx()
    for a in ts:
        if has_ite(a, _HI):
            continue
        ctx = ctx.add(a)
        if ctx.bad:
            break
    return ctx


def impossible(ctx, t, depth=0):
    """t cannot hold in ctx"""
    if ctx.bad:
        return True
    t = ctx.simp_bool(t)
    if t is FALSE:
        return True
    if t is TRUE or depth > 4:
        return False
    if t.op == 'or':
        return len(t.args) <= 8 and all(impossible(ctx, x, depth + 1) for x in t.args)
    if t.op == 'and':
        ors = [x for x in t.args if x.op == 'or']
        for x in t.args:
            if x.op != 'or' and not has_ite(x, _HI):
                ctx = ctx.add(x)
                if ctx.bad:
                    return True
        for x in ors:
            if impossible(ctx, x, depth + 1):
                return True
        return False
    if has_ite(t, _HI):
        return False
    return bool(ctx.add(t).bad)


def symbolic(I, cond, body, inc, bound, node):
    start = I.nloc
    W = []
    k = fresh('i', 'k')
    kp = atom(k)
    base_snap = snapshot(I)
    pre = {}
    strict = False
    for _round in range(12):
        # ---- probe with the current carried set
        restore(I, base_snap)
        leaves = []
        shapes = []
        for p in W:
            v0 = I.load(p)
            ty = type_of_path(I, p)
            shapes.append((p, havoc(I, v0, 'L', ty, leaves)))
        m = {leaves[n][0]: preset_value(kd, leaves[n][0], leaves[n][1], kp) for n, kd in pre.items()}
        for p, sh in shapes:
            I.store_at(p, subst(sh, m) if m else sh)
        log = []
        I.wlogs.append(log)
        I.exits = []
        I.pc.append(ge(kp, ZERO))
        hav_store = dict(I.store)
        if not strict:
            I.lenient += 1
        try:
            c = cond() if bound is None else lt(kp, bound)
            pre_exits, pre_store = I.exits, I.store
            I.exits = []
            if any(kk not in ('throw', 'abort') for _c, kk, _v, _s in pre_exits):
                raise Unsupported('jump in loop condition')
            I.pc.append(c)
            body(kp)
            I.pc.pop()
            e, alive, st = I.exits, I.alive, I.store
            got, others = I.outcome(e, alive, st, ('cont',))
            if got is not None:
                I.alive, I.store, I.exits = True, got[1], []
                inc()
                if I.exits:
                    raise Unsupported('exit in loop increment')
                end_store = I.store
            else:
                end_store = None
        finally:
            I.wlogs.pop()
            I.pc.pop()
            if not strict:
                I.lenient -= 1
        new = []
        for p in log:
            loc = p.args[0]
            n0 = loc.args[0]
            if isinstance(n0, int) and n0 > start and loc not in base_snap[0]:
                continue
            if loc not in base_snap[0] and n0 == 'g':
                pass
            q = prefix(p, I)
            cover = False
            for w in W + new:
                if q.args[:len(w.args)] == w.args:
                    cover = True
            if not cover:
                new = [w for w in new if w.args[:len(q.args)] != q.args]
                new.append(q)
        if new:
            W = [w for w in W if not any(w.args[:len(q.args)] == q.args for q in new)] + new
            pre, strict = {}, False
            continue
        # ---- next values
        inits = dict(leaves)
        nxt = {}
        if end_store is not None:
            I.store = end_store
            for p, sh in shapes:
                collect(sh, I.load(p), nxt)
        else:
            for v in inits:
                nxt[v] = v
        if strict or I.lenient:
            ok = True
            for n, kd in list(pre.items()):
                v, init = leaves[n]
                x = nxt.get(v)
                if kd[0] == 'ind':
                    good = x is not None and x is add(init, mul(add(kp, ONE), kd[1]))
                else:
                    good = x is not None and length(x) is length(init)
                if not good:
                    del pre[n]
                    ok = False
            if ok:
                break
            continue
        pre = preset(I, leaves, nxt, k)
        strict = True
    else:
        raise Unsupported('loop-carried set does not stabilise')
    if I.lenient:
        others = [o for o in others if o[1] not in ('throw', 'abort')]
        pre_exits = []
    assumes_body = I.assumes[len(base_snap[3]):]
    mine = I.bounds[base_snap[7]:]
    closed = {}
    lens = {}
    for n, kd in pre.items():
        v, init = leaves[n]
        if kd[0] == 'ind':
            closed[v] = (lambda init, d: lambda K: add(init, mul(K, d)))(init, kd[1])
            del nxt[v]
        else:
            lens[v] = (lambda init: lambda K: length(init))(init)
    closed = solve(I, inits, nxt, k, closed, lens)

    def at(K, t):
        """t (over the carried vars and k) at iteration K"""
        m = {v: leafterm(closed[v](K)) for v in inits if v in t.fv}
        if k in t.fv:
            m[k] = K
        return subst(t, m) if m else t
    # ---- trip count
    c_k = at(kp, c)
    ub = None
    rest = []
    conj = c_k.args if c_k.op == 'and' else (c_k,)
    for x in conj:
        u = None
        if ub is None:
            u = TM._upper(x, k)
            if u is None and x.op == 'not' and x.args[0].op == 'eq':
                u = lin_solve(x.args[0].args[0], k)
            if u is None:
                u = strided(x, k)
        if u is not None and k not in u.fv:
            ub = u
        elif x is not TRUE:
            rest.append(x)
    if ub is not None:
        ub = clampz(I, ub)
    if any(x is FALSE for x in conj):
        ub, rest = ZERO, []
    stay = and_(*rest) if rest else TRUE
    ex, pex = [], []
    if others or pre_exits:
        restore(I, base_snap)
        known = [ge(kp, ZERO)]
        fx = facts(I, known + ([le(kp, ub)] if ub is not None else []))
        for (ec, kind, v, s) in pre_exits:
            e2 = at(kp, ec)
            if not impossible(fx, e2):
                if DEBUG: print("PRE", kind, TM.show(e2)[:1500], "\n  GIVEN", [TM.show(t) for t, v in fx.trail])
                pex.append((e2, kind, v, s))
                fx = fx.add(not_(e2)) if not has_ite(e2, _HI) else fx
        fx = facts(I, known + [c_k])
        for (ec, kind, v, s) in others:
            e2 = at(kp, ec)
            if kind not in ('throw', 'abort') or not impossible(fx, e2):
                if DEBUG: print("EXIT", kind, TM.show(e2)[:1500], "\n  GIVEN", [TM.show(t) for t, v in fx.trail])
                ex.append((e2, kind, v, s))
    E = not_(stay)
    for (ec, _k, _v, _s) in pex + ex:
        E = or_(E, ec)
    if end_store is None and bound is None and not others:
        pass
    if E is FALSE:
        if ub is None:
            raise Unsupported('loop without exit')
        Tn = ub
    else:
        l = TM.close(k, E)
        Tn = first(ub, l) if ub is not None else TM.firstinf(l)
    # ---- final state
    restore(I, base_snap)
    if mine:
        npc = len(I.pc)
        within = [ge(kp, ZERO), le(kp, Tn)]
        for (hyps, cnd, wh, what, ks) in mine:
            # the path conditions of the loop itself are restated with the closed forms
            h = [at(kp, x) for x in hyps[npc:]]
            I.bounds.append((tuple(hyps[:npc]) + tuple(within) + tuple(h), at(kp, cnd), wh, what,
                             tuple((b, at(kp, n)) for b, n in ks) + ((k, Tn),)))
    fin = dict(base_snap[0])
    I.store = fin
    for p, sh in shapes:
        I.store_at(p, at(Tn, sh_value(sh)))
    normal_store = I.store
    # assumptions inside the body hold on every executed iteration: keep the per-iteration ones only
    # when they are about the loop-invariant state
    for a in assumes_body:
        if k not in a.fv and not any(v in a.fv for v in inits):
            I.assumes.append(or_(not_(gt(Tn, ZERO)) if ub is not None else FALSE, a))
    inside = lt(Tn, ub) if ub is not None else TRUE
    exits_out = []
    prev = FALSE
    single = stay is TRUE and len(ex) == 1 and not pex
    for (ec, kind, v, s) in pex:
        st = dict(normal_store)
        for loc, val in s.items():
            if hav_store.get(loc) is not val or loc not in normal_store:
                st[loc] = at(Tn, val)
        exits_out.append((subst(ec, {k: Tn}) if k in ec.fv else ec, kind, at(Tn, v), st))
    for (ec, kind, v, s) in ex:
        ec_T = subst(ec, {k: Tn}) if k in ec.fv else ec
        g = inside if single else and_(inside, subst(stay, {k: Tn}) if k in stay.fv else stay, ec_T)
        if single and ub is None:
            g = TRUE
        # store at that exit
        st = dict(normal_store)
        for loc, val in s.items():
            if hav_store.get(loc) is not val or loc not in normal_store:
                st[loc] = at(Tn, val)
        exits_out.append((g, kind, at(Tn, v), st))
    ex_saved = I.exits
    if ub is not None and Tn is not ub and stay is TRUE and not pex and \
            not any(kind == 'break' for _c, kind, _v, _s in ex):
        # what follows the loop is only reached when it ran through
        I.store = dict(base_snap[0])
        for p, sh in shapes:
            I.store_at(p, at(ub, sh_value(sh)))
        normal_store = I.store
    if ub is None and stay is TRUE and not pex:
        # the loop only ends through its exits
        alive = False
    else:
        alive = True
    got, oth = I.outcome(exits_out, alive, normal_store, ('break',))
    I.exits = ex_saved + oth
    I.lift(base_snap[7], ex_saved)
    if got is None:
        I.alive = False
        return
    I.alive = True
    I.store = got[1]


def sh_value(sh):
    return sh


def leafterm(v):
    return v


def clampz(I, ub):
    c = const(ub)
    if c is not None:
        return ub if c >= 0 else ZERO
    ctx = Ctx()
    t = ge(ub, ZERO)
    if t is TRUE:
        return ub
    if not has_ite(t, _HI) and t.op in ('ge', 'not'):
        for a in list(I.assumes)[-20:] + list(I.pc)[-12:]:
            if not has_ite(a, _HI):
                ctx = ctx.add(a)
                if ctx.bad:
                    return ub
        if ctx.decide_any(t) is True:
            return ub
    return max_(ub, ZERO)


def lin_solve(p, k):
    """p == 0 linear in k with unit coefficient: the solution"""
    co = None
    rest = {}
    for m, c in p.args:
        if m == ((k, 1),):
            co = c
        elif any(k in a.fv for a, _e in m):
            return None
        else:
            rest[m] = c
    if co is None:
        return None
    return scale(TM._poly(rest), -1 / co) if abs(co) == 1 else None


def strided(x, k):
    """k*s + r <= 0 style conditions with |s| > 1: trip count by ceiling division"""
    neg_ = False
    if x.op == 'not':
        neg_, x = True, x.args[0]
    if x.op != 'ge':
        return None
    p = x.args[0]
    if neg_:
        p = sub(neg(p), ONE)
    co, rest = None, {}
    for m, c in p.args:
        if m == ((k, 1),):
            co = c
        elif any(k in a.fv for a, _e in m):
            return None
        else:
            rest[m] = c
    if co is None or co >= 0 or co.denominator != 1:
        return None
    # s*k <= r  ->  k < floor(r/s)+1
    return add(floor(scale(TM._poly(rest), Q(-1) / co)), ONE)


from fractions import Fraction as Q   # noqa: E402


# ------------------------------------------------------------------ recurrences
def solve(I, inits, nxt, k, closed, lens):
    kp = atom(k)
    pending = [v for v in inits if v not in closed]
    # unchanged
    for v in list(pending):
        n = nxt.get(v, v)
        if n is v or as_atom(n) is v or is_self(n, v):
            init = inits[v]
            closed[v] = (lambda init: lambda K: init)(init)
            pending.remove(v)

    erase_filter(I, pending, inits, nxt, k, closed, lens)

    def sub_known(t, K=None):
        K = K if K is not None else kp
        m = {}
        for v, f in closed.items():
            if v in t.fv:
                m[v] = f(K)
        return subst(t, m) if m else t

    def sub_lens(t):
        if not lens:
            return t
        return rebuild(t, lambda x: lens[x.args[0]](kp) if x.op == 'len' and x.args[0] in lens
                       else None, {})
    progress = True
    while pending and progress:
        progress = False
        for v in list(pending):
            n = sub_lens(sub_known(nxt[v]))
            others = [u for u in pending if u is not v and u in n.fv]
            if v.args[1] == 'o' and v not in lens and seqlike(n):
                d = solve_len(v, n, inits[v], k, pending)
                if d is not None:
                    lens[v] = d
                    progress = True
                    n = sub_lens(n)
                    others = [u for u in pending if u is not v and u in n.fv]
            if others:
                continue
            f = solve_one(I, v, n, inits[v], k, lens)
            if f is not None:
                closed[v] = f
                pending.remove(v)
                progress = True
                break
    if pending:
        joint(I, pending, inits, {v: sub_known(nxt[v]) for v in pending}, k, closed, lens)
    return closed


def erase_filter(I, pending, inits, nxt, k, closed, lens):
    """a cursor that is advanced or whose element is erased: each iteration consumes one element of the
    original sequence"""
    import models
    kp = atom(k)
    for p in list(pending):
        if p.args[1] != 'i':
            continue
        d = as_atom(nxt[p]) if nxt[p].op == 'poly' else None
        if d is None or d.op != 'ite':
            continue
        G = d.args[0]
        d1, d2 = sub(d.args[1], atom(p)), sub(d.args[2], atom(p))
        if d1 is ONE and d2 is ZERO:
            G = not_(G)
        elif not (d1 is ZERO and d2 is ONE):
            continue
        for C in list(pending):
            if C.args[1] != 'o' or C not in nxt[C].fv:
                continue
            E = models.seq_erase(C, atom(p))
            n = nxt[C]
            if n is not ite(G, E, C):
                lit = G.args[0] if G.op == 'not' else G
                if lit.op in ('and', 'or'):
                    continue
                yes, no = set_lit(n, lit, G is lit), set_lit(n, lit, G is not lit)
                if not (yes is E and is_self(no, C)):
                    continue
            init = inits[C]
            at0 = sel(init, kp)
            cur = mk_raw('sel', (C, atom(p)))
            if inits[p] is not ZERO:
                continue
            G0 = rebuild(G, lambda x: at0 if x is cur else None, {})
            if C in G0.fv or p in G0.fv or any(u in G0.fv for u in pending):
                continue
            v = fresh('o', 'kept')
            step = ite(G0, v, seq_append(v, at0))
            lens[v] = solve_len(v, step, mk_raw('list', ()), k, [v])
            if lens[v] is None:
                continue
            step = rebuild(step, lambda x: lens[v](kp) if x.op == 'len' and x.args[0] is v else None, {})
            f = solve_one(I, v, step, mk_raw('list', ()), k, lens)
            cnt = lens.pop(v)
            if f is None:
                continue

            def whole(K, f=f, cnt=cnt, init=init):
                kept = f(K)
                c = cnt(K)
                return seq(sub(add(c, length(init)), K),
                           lambda j: ite(lt(j, c), sel(kept, j), sel(init, add(sub(j, c), K))))
            closed[C] = whole
            closed[p] = cnt
            lens[C] = lambda K, cnt=cnt, init=init: sub(add(cnt(K), length(init)), K)
            pending.remove(C)
            pending.remove(p)
            return


def is_self(n, v):
    x = n
    if x.op == 'poly':
        x = as_atom(x)
        if x is None:
            return False
    while x.op in ('z', 'r', 'rf', 'p'):
        x = x.args[0]
    if x.op == 'seq' and v in x.args[1].fv and v.args[1] == 'o':
        j = atom(fresh('i', 'j'))
        return is_self_elem(TM.app(x.args[1], j), v, j)
    if x.op == 'nc' and len(x.args) == 3 and len(x.args[2].args) == 2 and \
            x.args[2].args[0] is ONE and x.args[2].args[1] is v:
        return True
    return x is v


def is_self_elem(e, v, j):
    if e.op == 'poly':
        e = as_atom(e)
        if e is None:
            return False
    while e.op in ('z', 'r', 'rf', 'p'):
        e = e.args[0]
    return e is mk_raw('sel', (v, j))


def seqlike(n):
    if n.op in ('seq', 'list'):
        return True
    if n.op == 'ite':
        return seqlike(n.args[1]) or seqlike(n.args[2])
    return False


def solve_len(v, n, init, k, pending):
    ln = length(n)
    a = atom(mk_raw('len', (v,)))
    d = split_add(ln, a)
    if d is None:
        return None
    if any(u in d.fv for u in pending):
        return None
    return additive(length(init), d, k)


def additive(init, d, k):
    if d is ZERO:
        return lambda K: init
    if k not in d.fv:
        return lambda K: add(init, mul(K, d))
    l = TM.close(k, d)
    return lambda K: add(init, TM.sum_(K, l))


def split_add(n, a):
    """n = a + delta with delta free of a (through conditionals)"""
    if n.op != 'poly':
        return None
    av = as_atom(a)
    d = sub(n, a)
    if not contains(d, av):
        return d
    # pieces
    x = as_atom(n)
    if x is not None and x.op == 'ite' and not contains(x.args[0], av):
        d1 = split_add(x.args[1], a)
        d2 = split_add(x.args[2], a)
        if d1 is None or d2 is None:
            return None
        return ite(x.args[0], d1, d2)
    # a poly with conditional atoms mentioning a:  c + ite(p, a+1, a)
    for m, c in n.args:
        if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].op == 'ite' and contains(m[0][0], av):
            if atom(m[0][0]) is n:
                continue
            d1 = split_add(atom(m[0][0]), a)
            if d1 is not None:
                rest = sub(n, atom(m[0][0]))
                if not contains(rest, av):
                    return add(d1, rest)
    return None


def solve_one(I, v, n, init, k, lens):
    kp = atom(k)
    sort = v.args[1]
    if v not in n.fv:
        if k not in n.fv:
            return lambda K: ite(le(K, ZERO), init, n) if const(K) is None or const(K) <= 0 else n
        l = TM.close(k, n)
        return lambda K: ite(le(K, ZERO), init, TM.app(l, sub(K, ONE)))
    if sort in 'ir':
        d = split_add(n, atom(v))
        if d is not None:
            return additive(init, d, k)
        # geometric etc. are left to folds; last-writer below
        r = last_writer(v, n, init, k)
        if r is not None:
            return r
        return fold1(v, n, init, k, lens)
    if sort == 'b':
        A = subst(n, {v: FALSE})
        B = subst(n, {v: TRUE})
        if B is TRUE:
            l = TM.close(k, A)
            return lambda K: or_(init, lt(first(clamp0(K), l), K))
        if A is FALSE:
            l = TM.close(k, not_(B))
            return lambda K: and_(init, not_(lt(first(clamp0(K), l), K)))
        r = last_writer(v, n, init, k)
        if r is not None:
            return r
        return fold1(v, n, init, k, lens)
    # objects
    if seqlike(n):
        f = solve_seq(I, v, n, init, k, lens)
        if f is not None:
            return f
        return fold1(v, n, init, k, lens)
    if n.op in ('mlam', 'nc', 'mat') or (n.op == 'ite'):
        if n.op == 'mlam':
            f = solve_mat(I, v, n, init, k)
            if f is not None:
                return f
    r = last_writer(v, n, init, k)
    if r is not None:
        return r
    return fold1(v, n, init, k, lens)


def clamp0(K):
    c = const(K)
    if c is not None:
        return K if c >= 0 else ZERO
    return K


def unwritten(x, v):
    """(when the step leaves v as it is, the value written otherwise)"""
    if is_self(x, v):
        return TRUE, None
    y = x
    if x.op == 'poly':
        y = as_atom(x)
        if y is None:
            return FALSE, x
    if y.op != 'ite':
        return FALSE, x
    c, a, b = y.args
    ka, va = unwritten(a, v)
    kb, vb = unwritten(b, v)
    keep = or_(and_(c, ka), and_(not_(c), kb))
    if ka is FALSE and kb is FALSE:
        return FALSE, x
    if va is None:
        return keep, vb
    if vb is None:
        return keep, va
    return keep, ite(c, va, vb)


def last_writer(v, n, init, k):
    """n = C(k) ? V(k) : v"""
    x = n
    if n.op == 'poly':
        x = as_atom(n)
        if x is None:
            return None
    if x.op == 'ite':
        keep, A = unwritten(x, v)
        if keep is FALSE or A is None:
            return None
        C = not_(keep)
        if v in C.fv or v in A.fv:
            return None
    elif x.op in ('or', 'and') and v.args[1] == 'b':
        A1, B1 = subst(n, {v: TRUE}), subst(n, {v: FALSE})
        # value is V when forced both ways
        C = or_(and_(A1, B1), and_(not_(A1), not_(B1)))
        same = or_(and_(A1, not_(B1)))
        if or_(C, same) is not TRUE:
            return None
        A = A1
    else:
        return None
    lC = TM.close(k, C)
    lA = TM.close(k, A)

    def f(K):
        K = clamp0(K)
        r = first(K, lam(lambda m: TM.app(lC, sub(sub(K, ONE), m))))
        return ite(lt(r, K), TM.app(lA, sub(sub(K, ONE), r)), init)
    return f


def wrap_sort(sort, t):
    if sort == 'i':
        return coerce('z', t)
    if sort == 'r':
        return coerce('r', t)
    if sort == 'b':
        return coerce('p', t)
    return t


def fold1(v, n, init, k, lens=None):
    s = fresh('o', 's')
    bodyt = subst(n, {v: wrap_sort(v.args[1], fld(s, '0'))})
    l = TM.close(k, TM.close(s, struct('S', [('0', bodyt)])))
    st = struct('S', [('0', init)])
    return mkfold('0', st, l, v.args[1], init, lens.get(v) if lens else None)


def joint(I, pending, inits, nxt, k, closed, lens):
    """mutually dependent components: strongly connected groups become one fold each"""
    # dependency order
    rest = list(pending)
    while rest:
        # find a minimal group: reachability closure
        def reach(v):
            seen, stack = set(), [v]
            while stack:
                x = stack.pop()
                if x in seen:
                    continue
                seen.add(x)
                for u in rest:
                    if u is not x and u in nxt[x].fv and u not in seen:
                        stack.append(u)
            return seen
        groups = [(v, reach(v)) for v in rest]
        v, g = min(groups, key=lambda t: len(t[1]))
        g = ordered([u for u in rest if u in g], inits)
        s = fresh('o', 's')
        m = {u: wrap_sort(u.args[1], fld(s, str(i))) for i, u in enumerate(g)}
        bodyt = struct('S', [(str(i), subst(nxt[u], m)) for i, u in enumerate(g)])
        l = TM.close(k, TM.close(s, bodyt))
        st = struct('S', [(str(i), inits[u]) for i, u in enumerate(g)])
        for i, u in enumerate(g):
            closed[u] = mkfold(str(i), st, l, u.args[1], inits[u], lens.get(u))
        rest = [u for u in rest if u not in g]
        for u in rest:
            mm = {x: closed[x](atom(k)) for x in g if x in nxt[u].fv}
            if mm:
                nxt[u] = subst(nxt[u], mm)
        # the others may have become solvable
        changed = True
        while changed:
            changed = False
            for u in list(rest):
                if any(x is not u and x in nxt[u].fv for x in rest):
                    continue
                f = solve_one(I, u, nxt[u], inits[u], k, lens)
                if f is not None:
                    closed[u] = f
                    rest.remove(u)
                    for w in rest:
                        if u in nxt[w].fv:
                            nxt[w] = subst(nxt[w], {u: f(atom(k))})
                    changed = True


def ordered(g, inits):
    """the components of a joint recurrence in an order that does not depend on which one the loop writes first"""
    if len(g) < 2:
        return g
    return sorted(g, key=lambda u: (u.args[1], re.sub(r'~\d+', '', TM.show(inits[u])[:4000])))


def mkfold(i, st, l, sort, init, flen=None):
    def f(K):
        if K is ZERO:
            return init
        t = wrap_sort(sort, mk_raw('fold', (i, K, st, l)))
        if flen is not None:
            return seq(flen(K), lambda j: sel(t, j))
        return t
    return f


# ------------------------------------------------------------------ sequences
def acc_view(e, acc):
    return e


def solve_seq(I, v, n, init, k, lens):
    kp = atom(k)
    if v not in lens:
        return None
    j = fresh('i', 'j')
    jp = atom(j)
    acc = fresh('o', 'acc')
    e = sel(n, jp)
    # the element itself
    selj = mk_raw('sel', (v, jp))
    e2 = rebuild(e, lambda x: acc if x is selj else None, {})
    other_reads = v in e2.fv
    flen = lens[v]
    if not other_reads:
        fe = pointwise(e2, acc, j, k)
        if fe is None:
            return None

        def f(K):
            return seq(flen(K), lambda jj: fe(K, jj, sel(init, jj) if not opaque_empty(init) else UNDEF))
        return f
    # reads of other positions: allowed when they are provably not yet written
    w = writer(e2, acc, j, k, v)
    if w is None:
        return None
    pos = w[0]      # iteration that writes position j, as a term over j
    off = sub(jp, pos)     # j - k*   (must be constant: k* = j - c)
    if j in off.fv:
        return None
    bad = []

    def chk(x):
        if x.op == 'sel' and x.args[0] is v:
            idx = x.args[1]
            # not yet written at iteration k:  idx - c >= k
            ctx = Ctx().add(ge(kp, ZERO))
            for a in list(I.assumes)[-20:]:
                if not has_ite(a, _HI):
                    ctx = ctx.add(a)
            if ctx.decide_any(ge(sub(idx, off), kp)) is True or \
                    ctx.decide_any(lt(sub(idx, off), ZERO)) is True:
                return sel(init, rebuild(idx, chk, {}))
            bad.append(x)
            return None
        return None
    e3 = rebuild(e2, chk, {})
    if bad or v in e3.fv:
        return None
    fe = pointwise(e3, acc, j, k)
    if fe is None:
        return None
    return lambda K: seq(flen(K), lambda jj: fe(K, jj, sel(init, jj)))


def opaque_empty(init):
    return False


def eq_lits(e, j, k, out, seen):
    """equality atoms relating j and k anywhere in e"""
    if e in seen:
        return
    seen.add(e)
    if j not in e.fv:
        return
    if e.op == 'eq':
        p = e.args[0]
        cj = ck = None
        ok = True
        for m, c in p.args:
            if m == ((j, 1),):
                cj = c
            elif m == ((k, 1),):
                ck = c
            elif any(j in a.fv or k in a.fv for a, _e in m):
                ok = False
        if ok and cj is not None and ck is not None and abs(cj) == abs(ck):
            if e not in out:
                out.append(e)
    if e.op == 'poly':
        for m, _c in e.args:
            for a, _e in m:
                eq_lits(a, j, k, out, seen)
    else:
        for a in e.args:
            if type(a) is T:
                eq_lits(a, j, k, out, seen)


def set_lit(e, lit, val):
    c = TRUE if val else FALSE
    return rebuild(e, lambda x: c if x is lit else None, {})


def is_acc(e, acc):
    if e.op == 'struct':
        return all(is_acc_f(x, acc, n) for n, x in fields(e))
    return is_self(e, acc)


def is_acc_f(x, acc, n):
    y = x
    if y.op == 'poly':
        y = as_atom(y)
        if y is None:
            return False
    while y.op in ('z', 'r', 'rf', 'p'):
        y = y.args[0]
    return y.op == 'fld' and y.args[0] is acc and y.args[1] == n


def writer(e, acc, j, k, v=None):
    """the only iteration that writes element j: (k*, value under it, side condition) or None"""
    lits = []
    eq_lits(e, j, k, lits, set())
    for L in lits:
        off = set_lit(e, L, False)
        if is_acc(off, acc):
            # k* as a function of j
            p = L.args[0]
            ck = [c for m, c in p.args if m == ((k, 1),)][0]
            rest = sub(p, scale(atom(k), ck))
            return (scale(rest, -1 / ck), set_lit(e, L, True), TRUE)
    bounds = []
    range_lits(e, j, k, bounds, set())
    for (L, D, pol, r) in bounds:            # L with value pol means j >= D k + r
        for (L2, D2, pol2, r2) in bounds:    # L2 with value not pol2 means j < D k + r2
            if L is L2 or D is not D2 or sub(r2, r) is not D:
                continue
            if is_acc(set_lit(e, L, not pol), acc) and is_acc(set_lit(e, L2, pol2), acc):
                jr = sub(atom(j), r)
                on = set_lit(set_lit(e, L, pol), L2, not pol2)
                return (TM.idiv(jr, D), on, and_(ge(jr, ZERO), ge(D, ONE)))
    return None


def range_lits(e, j, k, out, seen):
    """bounds j >= D*k + r: (literal, D, polarity of the literal, r)"""
    if e in seen:
        return
    seen.add(e)
    if j not in e.fv or k not in e.fv:
        return
    if e.op == 'ge':
        D = rest = ZERO
        cj = None
        ok = True
        for m, c in e.args[0].args:
            t = mk_raw('poly', ((m, c),))
            if m == ((j, 1),):
                cj = c
            elif any(a is j or j in a.fv for a, _e in m):
                ok = False
            elif (k, 1) in m:
                m2 = tuple(x for x in m if x[0] is not k)
                if any(k in a.fv for a, _e in m2):
                    ok = False
                D = add(D, TM._poly({m2: c}))
            elif any(k in a.fv for a, _e in m):
                ok = False
            else:
                rest = add(rest, t)
        if ok and cj in (1, -1) and D is not ZERO:
            if cj == 1:      # j >= -D k - rest
                out.append((e, neg(D), True, neg(rest)))
            else:            # not (D k + rest - j >= 0): j >= D k + rest + 1
                out.append((e, D, False, add(rest, ONE)))
    if e.op == 'poly':
        for m, _c in e.args:
            for a, _e in m:
                range_lits(a, j, k, out, seen)
    else:
        for a in e.args:
            if type(a) is T:
                range_lits(a, j, k, out, seen)


def pointwise(e, acc, j, k):
    """element recurrence acc' = e(k, j, acc): closed form (K, j, init_j) -> value, or None"""
    if is_acc(e, acc):
        return lambda K, jj, a0: a0
    w = writer(e, acc, j, k)
    if w is not None:
        ks_t, on, side = w
        on_t = subst(on, {k: ks_t})

        def f(K, jj, a0):
            kk = subst(ks_t, {j: jj})
            val = subst(on_t, {j: jj, acc: a0})
            return ite(and_(subst(side, {j: jj}), ge(kk, ZERO), lt(kk, K)), val, a0)
        return f
    if e.op == 'struct':
        fs = []
        for n, x in fields(e):
            a2 = fresh('o', 'acc')
            fa = mk_raw('fld', (acc, n))
            x2 = rebuild(x, lambda y: a2 if y is fa else None, {})
            if acc in x2.fv:
                return pfold(e, acc, j, k)
            g = pointwise(x2, a2, j, k)
            if g is None:
                return None
            fs.append((n, g))
        nm = e.args[0]
        return lambda K, jj, a0: struct(nm, [(n, g(K, jj, fld(a0, n))) for n, g in fs])
    # one constant value written under a condition
    leaves = []
    tree(e, TRUE, leaves)
    vals = []
    C = FALSE
    ok = True
    for c, x in leaves:
        if is_acc(x, acc):
            continue
        if acc in c.fv or acc in x.fv or k in x.fv:
            ok = False
            break
        if x not in vals:
            vals.append(x)
        C = or_(C, c)
    if ok and len(vals) == 1 and acc not in C.fv:
        val = vals[0]

        def f(K, jj, a0):
            Cj = subst(C, {j: jj})
            if k not in Cj.fv:
                return ite(and_(Cj, gt(K, ZERO)), subst(val, {j: jj}), a0)
            l = TM.close(k, Cj)
            return ite(lt(first(clamp0(K), l), K), subst(val, {j: jj}), a0)
        return f
    return selected(e, acc, j, k, leaves) or pfold(e, acc, j, k)


def selected(e, acc, j, k, leaves):
    """the element written in the last iteration with a condition: its value at the index of that iteration"""
    C, V = FALSE, None
    for c, x in leaves:
        if is_acc(x, acc):
            continue
        if acc in c.fv or acc in x.fv:
            return None
        C = or_(C, c)
        V = x if V is None else ite(c, x, V)
    if V is None or j in V.fv or acc in V.fv or not V.fv or V.op in ('undef', 'uninit'):
        return None
    at = pfold(ite(C, atom(k), acc), acc, j, k)
    whole = pfold(e, acc, j, k)

    def f(K, jj, a0):
        if a0.op != 'undef':
            return whole(K, jj, a0)
        return subst(V, {k: at(K, jj, a0)})
    return f


def tree(e, c, out):
    x = e
    if e.op == 'poly':
        x = as_atom(e)
        if x is None or x.op != 'ite':
            out.append((c, e))
            return
    if x.op == 'ite':
        tree(x.args[1], and_(c, x.args[0]), out)
        tree(x.args[2], and_(c, not_(x.args[0])), out)
        return
    out.append((c, e))


def pfold(e, acc, j, k):
    def f(K, jj, a0):
        x = subst(e, {j: jj})
        l = TM.close(k, TM.close(acc, x))
        return mk_raw('pfold', (K, a0, l))
    return f


def solve_mat(I, v, n, init, k):
    """matrix with symbolic extents updated per iteration: element recurrence"""
    i, j = fresh('i', 'i'), fresh('i', 'j')
    ip, jp = atom(i), atom(j)
    R, C = mrows(n), mcols(n)
    rv_, cv_ = atom(mk_raw('rows', (v,))), atom(mk_raw('cols', (v,)))
    R = rebuild(R, lambda x: mrows(init) if x.op == 'rows' and x.args[0] is v else (
        mcols(init) if x.op == 'cols' and x.args[0] is v else None), {})
    C = rebuild(C, lambda x: mrows(init) if x.op == 'rows' and x.args[0] is v else (
        mcols(init) if x.op == 'cols' and x.args[0] is v else None), {})
    if v in R.fv or v in C.fv or k in R.fv or k in C.fv:
        return None
    acc = fresh('o', 'acc')
    e = ment(n, ip, jp)

    def fix(x):
        if x.op == 'ent' and x.args[0] is v and x.args[1] is ip and x.args[2] is jp:
            return acc
        if x.op == 'rows' and x.args[0] is v:
            return mrows(init)
        if x.op == 'cols' and x.args[0] is v:
            return mcols(init)
        return None
    e2 = rebuild(e, fix, {})
    if v in e2.fv:
        return None
    # row-wise or column-wise unique writer
    for a, b, ap in ((i, j, ip), (j, i, jp)):
        fe = None
        w = writer(e2, acc, a, k)
        if w is not None:
            ks, on, side = w
            on = subst(on, {k: ks})

            def f(K, ii, jj, a0, ks=ks, on=on, side=side):
                m = {i: ii, j: jj}
                kk = subst(ks, m)
                return ite(and_(subst(side, m), ge(kk, ZERO), lt(kk, K)),
                           subst(on, {i: ii, j: jj, acc: a0}), a0)
            return lambda K, f=f: mlam(R, C, lambda ii, jj: coerce('r', f(K, ii, jj, ment(init, ii, jj))))

    def g(K, ii, jj, a0):
        x = subst(e2, {i: ii, j: jj})
        l = TM.close(k, TM.close(acc, x))
        return coerce('r', mk_raw('pfold', (K, a0, l)))
    return lambda K: mlam(R, C, lambda ii, jj: g(K, ii, jj, ment(init, ii, jj)))
