"""Showing that two summaries differ on an instance.

When the general comparison runs out of its budget, the sizes and counts the summaries depend on are replaced
by small numbers.  Loops and searches then unfold into finite terms over the remaining unknowns, and those are
compared in the same way as before.  A difference found this way holds for that size.
"""
import itertools
import time
from fractions import Fraction

import decide as DC
from terms import (T, app, const, fld, is_num, num, rebuild, show, FALSE)

COUNTED = ('first', 'firstinf', 'sum', 'seq', 'fold', 'pfold', 'fold1', 'mlam')


def parts(t):
    if t.op == 'poly':
        return [a for m, _c in t.args for a, _e in m]
    return [a for a in t.args if type(a) is T]


def sizes(ts):
    """whole-number atoms of the inputs, those that bound loops first"""
    score, seen = {}, set()

    def visit(t, w):
        if (t, w) in seen:
            return
        seen.add((t, w))
        if t.op in ('len', 'z') and all(
                v.op == 'var' and not str(v.args[0]).startswith(('undef', 'uninit')) for v in t.fv):
            score[t] = score.get(t, 0) + (1000 if w else 1)
        for i, a in enumerate(parts(t)):
            visit(a, w or t.op in COUNTED and t.op != 'poly' and a.op == 'poly')
    for t in ts:
        visit(t, False)
    return sorted((a for a in score if score[a] >= 1000), key=lambda a: (-score[a], a.id))


def unfold(t):
    if t.op == 'fold':
        i, K, st, l = t.args
        n = const(K) if is_num(K) else None
        if n is not None and 0 <= n <= 8 and l.op == 'lam':
            s = st
            for k in range(int(n)):
                inner = app(l, num(k))
                if inner.op != 'lam':
                    return None
                s = app(inner, s)
            return fld(s, i)
    return None


def instance(t, m):
    def f(x):
        return m.get(x)
    t = rebuild(t, f, {})
    for _ in range(6):
        memo = {}
        u = rebuild(t, unfold, memo)
        if u is t:
            break
        t = u
    return t


def candidates(atoms, assumes, cap):
    rng = [range(0, 5) if a.op == 'len' else range(0, 4) for a in atoms]
    out = []
    for vs in sorted(itertools.product(*rng), key=lambda v: (abs(sum(v) - 2 * len(v)), v)):
        m = {a: num(v) for a, v in zip(atoms, vs)}
        ctx = DC.Ctx()
        for a in assumes:
            x = rebuild(a, m.get, {})
            if x is FALSE:
                break
            ctx = ctx.add(x)
            if ctx.bad:
                break
        else:
            out.append((m, ctx))
            if len(out) >= cap:
                break
    return out


def differ(r1, r2, assumes, seconds, cap=40):
    """(sizes, True) for the first instance on which the summaries are found to differ"""
    end = time.time() + seconds
    atoms = sizes([r1, r2])[:4]
    if not atoms:
        return None
    for m, ctx in candidates(atoms, assumes, cap):
        if time.time() > end:
            return None
        DC.DEADLINE[0] = min(end, time.time() + 8)
        lim = DC.LIMIT[0]
        DC.LIMIT[0] = 1500
        try:
            a, b = instance(r1, m), instance(r2, m)
            DC.STATS.update(splits=0, leaves=0, entail=0)
            DC.FAIL.clear()
            if not DC.decide_equal(a, b, ctx):
                return {show(k): show(v) for k, v in m.items()}
        except (DC.Budget, RecursionError):
            pass
        finally:
            DC.DEADLINE[0] = None
            DC.LIMIT[0] = lim
    return None
