"""Value-flow analysis of the resolved C++ program.

Every function reachable from an obligation is summarised bottom-up: its result, the final contents of
every object it can reach and the conditions of its early exits are computed as normalised terms over
its inputs.  Control-flow joins are merged with gated (if-then-else) terms, loops are summarised by
solving their recurrences; no path is enumerated and no input is ever chosen.
"""
import json
import re
import sys
from fractions import Fraction as Q

from terms import *
from terms import int_quotient
import terms as TM
from decide import Ctx, contains, has_ite, _HI

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class LV:
    """an lvalue: a pointer term"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


def sf(n):
    return mk_raw('sf', (n,))


def si(i):
    return mk_raw('si', (i,))


def ptr(loc, *sels):
    return mk_raw('ptr', (loc,) + sels)


def extend(p, s):
    if p.op == 'ite':
        return ite(p.args[0], extend(p.args[1], s), extend(p.args[2], s))
    if p.op == 'ptr':
        return mk_raw('ptr', p.args + (s,))
    if p.op == 'undef':
        return p
    raise Unsupported('member of non-pointer %s' % show(p))


def string(s):
    return mk_raw('str', (s,))


def is_bv_free(t):
    return not any(x.op == 'bv' for x in t.fv)


# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.main = d['main']
        self.types = d['types']
        self.records = {}
        for r in d['records']:
            self.records[r['s']] = r
            self.records.setdefault('~' + r['name'], r)
        for r in d['records']:
            r['own'] = r['fields']
            r['fields'] = self.flat(r)
        self.globals = {g['q']: g for g in d['globals']}
        self.funs = {}
        self.byname = {}
        self.over = {}
        for f in d['funs']:
            self.funs[f['id']] = f
            self.byname.setdefault(f['q'], []).append(f)
            for o in f.get('ov', []):
                self.over.setdefault(o, []).append(f['id'])
        self.tycache = {}
        self._derived = None

    def flat(self, r):
        """the fields of a record with those of anonymous members lifted into it"""
        out = []
        for f in r['own'] if 'own' in r else r['fields']:
            if f['n'] == '' and self.rec(f['t']) is not None:
                out += self.flat_anon(self.rec(f['t']))
            else:
                out.append(f)
        return out

    def flat_anon(self, r):
        own = r['own'] if 'own' in r else r['fields']
        if not self.is_union(r):
            return self.flat(r)
        for f in own:
            if f['n'] == '' and self.rec(f['t']) is not None:
                return self.flat(self.rec(f['t']))
        return own[:1]

    def derived(self, name):
        """classes with `name` among their direct bases"""
        d = self._derived
        if d is None:
            d = {}
            for r in self.records.values():
                for b in r.get('bases', []):
                    br = self.rec(b)
                    if br:
                        d.setdefault(br['name'], set()).add(r['name'])
            self._derived = d
        return d.get(name, ())

    def is_union(self, r):
        return bool(r.get('union'))

    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else {'s': '?', 'k': 'other'}

    def strip_ref(self, i):
        t = self.ty(i)
        while t['k'] == 'ref':
            i = t['to']
            t = self.ty(i)
        return i

    def name(self, i):
        t = self.ty(self.strip_ref(i))
        if t['k'] == 'rec':
            return t['name']
        return t['s']

    def rec(self, i):
        t = self.ty(self.strip_ref(i))
        if t['k'] != 'rec':
            return None
        r = self.records.get(t.get('us', t['s']))
        if r is None:
            r = self.records.get(t['s'])
        return r

    def fields(self, r):
        """all fields including those of bases: list of field dicts"""
        out = []
        for b in r.get('bases', []):
            br = self.rec(b)
            if br:
                out += self.fields(br)
        out += r['fields']
        return out

    def targs(self, i):
        t = self.ty(self.strip_ref(i))
        return t.get('args', [])

    def eigen(self, i):
        """(kind, rows, cols) of an Eigen dense type; None entries are dynamic"""
        t = self.ty(self.strip_ref(i))
        if t['k'] != 'rec':
            return None
        if t['name'] in ('Eigen::Matrix', 'Eigen::Array'):
            a = t['args']
            r, c = int(a[1]['I']), int(a[2]['I'])
            return ('M', None if r < 0 else r, None if c < 0 else c)
        if t['name'] == 'Eigen::Quaternion':
            return ('Q',)
        if t['name'] == 'Eigen::Transform':
            return ('I',)
        if t['name'] == 'Eigen::AngleAxis':
            return ('A',)
        return None

    def scalar(self, i):
        t = self.ty(self.strip_ref(i))
        if t['k'] == 'b':
            if t.get('b') == 'bool':
                return 'p'
            if t.get('b') == 'float':
                return 'rf' if t['bits'] == 32 else 'r'
            if t.get('b') == 'int':
                return 'z'
        if t['k'] == 'enum':
            return 'z'
        return None


SEQ_TYPES = {'std::vector', 'std::deque', 'std::__cxx11::list', 'std::initializer_list', 'std::array',
             'std::queue', 'std::stack', 'std::list', 'std::span', 'boost::container::vector',
             'std::forward_list', 'std::valarray'}
MAP_TYPES = {'std::map', 'std::unordered_map'}
PTR_TYPES = {'std::shared_ptr', 'std::unique_ptr', 'boost::shared_ptr', 'std::__shared_ptr',
             'std::weak_ptr', 'std::__weak_ptr'}


def quat(w, x, y, z):
    return struct('Quat', [('w', w), ('x', x), ('y', y), ('z', z)])


class Frame:
    __slots__ = ('env', 'this', 'fn', 'retref')

    def __init__(self, fn):
        self.env = {}
        self.this = None
        self.fn = fn
        self.retref = False


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.store = {}
        self.exits = []
        self.alive = True
        self.assumes = []
        self.nloc = 0
        self.loctype = {}
        self.lenient = 0
        self.rounded = {}
        self.opaque_q = set()
        self.wlogs = []
        self.frames = []
        self.depth = 0
        self.opaque_calls = {}
        self.visited = set()
        self.notes = []
        self.pc = []
        self.bounds = []       # (path, cond, where, what, loop indices with their last values)
        self.at = None         # the call being modelled
        self.statics = {}
        self.ginit = {}
        self.built = None
        self.blanks = {}
        self.uninits = 0
        import models
        self.models = models

    # -------------------------------------------------------------- locations
    def new_loc(self, v, ty=None, label=''):
        self.nloc += 1
        loc = mk_raw('loc', (self.nloc, label))
        self.store[loc] = v
        if ty is not None:
            self.loctype[loc] = ty
        return ptr(loc)

    def named_loc(self, name, ty=None):
        loc = mk_raw('loc', ('g', name))
        if ty is not None:
            self.loctype.setdefault(loc, ty)
        return loc

    def root_value(self, loc):
        v = self.store.get(loc)
        if v is None:
            if loc.args[0] == 'deref':
                v = fld(loc.args[1], '*')
                return v
            return mk_raw('uninit', (loc,))
        return v

    def load(self, p):
        if p.op == 'ite':
            return ite(p.args[0], self.load(p.args[1]), self.load(p.args[2]))
        if p.op == 'undef':
            return p
        if p.op == 'null':
            return UNDEF
        if p.op != 'ptr':
            return fld(p, '*')
        v = self.root_value(p.args[0])
        for s in p.args[1:]:
            v = self.proj(v, s)
        return v

    def deref(self, t):
        """pointer value -> pointer term usable as an lvalue"""
        if t.op == 'ite':
            return ite(t.args[0], self.deref(t.args[1]), self.deref(t.args[2]))
        if t.op in ('ptr', 'undef'):
            return t
        if t.op == 'null':
            return UNDEF
        if t.op == 'iter':
            return extend(t.args[0], si(self.iter_pos(t)))
        return ptr(mk_raw('loc', ('deref', t)))

    def iter_pos(self, t):
        if len(t.args) > 2 and t.args[2] == 'rev':
            return sub(sub(self.seq_len(self.load(t.args[0])), ONE), t.args[1])
        return t.args[1]

    def seq_len(self, v):
        return length(v)

    def proj(self, v, s):
        op = s.op
        if op == 'sf':
            n = s.args[0]
            return self.models.proj_field(self, v, n)
        if op == 'si':
            i = s.args[0]
            if v.op in ('mat', 'mlam', 'nc'):
                return self.models.vec_ent(v, i)
            if len(s.args) > 1 and v.op != 'list' and v.op != 'seq':
                return self.models.ment(v, i, ZERO) if s.args[1] == 'v' else \
                    self.models.ment(v, ZERO, i)
            return sel(v, i)
        if op == 'so':
            return opt_val(v)
        if op == 'sx':
            return self.models.view_get(self, v, s.args)
        if op == 'sk':
            return self.models.map_get(self, v, s.args[0])
        raise Unsupported('proj ' + op)

    def store_at(self, p, v):
        if p.op == 'ite':
            c = p.args[0]
            old1 = self.load(p.args[1])
            self.store_at(p.args[1], ite(c, v, old1))
            old2 = self.load(p.args[2])
            self.store_at(p.args[2], ite(c, old2, v))
            return
        if p.op in ('undef', 'null'):
            return
        if p.op != 'ptr':
            p = self.deref(p)
            if p.op != 'ptr':
                raise Unsupported('store through ' + show(p))
        for w in self.wlogs:
            w.append(p)
        loc = p.args[0]
        if len(p.args) == 1:
            self.store[loc] = v
            return
        self.store[loc] = self._upd(self.root_value(loc), p.args[1:], v)

    def _upd(self, base, sels, v):
        if not sels:
            return v
        s = sels[0]
        if base.op == 'ite' and s.op != 'sx':
            return ite(base.args[0], self._upd(base.args[1], sels, v),
                       self._upd(base.args[2], sels, v))
        if s.op == 'sf':
            n = s.args[0]
            nv = self._upd(self.proj(base, s), sels[1:], v)
            return self.models.with_field(self, base, n, nv)
        if s.op == 'si':
            i = s.args[0]
            if base.op in ('mat', 'mlam', 'nc'):
                return self.models.vec_set(base, i, v)
            if len(s.args) > 1 and base.op != 'list' and base.op != 'seq':
                return self.models.ent_set(base, i, ZERO, v) if s.args[1] == 'v' else \
                    self.models.ent_set(base, ZERO, i, v)
            nv = self._upd(sel(base, i), sels[1:], v)
            return seq_write(base, i, nv)
        if s.op == 'so':
            return opt(opt_has(base), self._upd(opt_val(base), sels[1:], v))
        if s.op == 'sx':
            nv = self._upd(self.proj(base, s), sels[1:], v)
            return self.models.view_set(self, base, s.args, nv)
        if s.op == 'sk':
            nv = self._upd(self.proj(base, s), sels[1:], v)
            return self.models.map_set(self, base, s.args[0], nv)
        raise Unsupported('update ' + s.op)

    def val(self, x):
        return self.load(x.p) if isinstance(x, LV) else x

    def materialise(self, x, ty=None):
        if isinstance(x, LV):
            return x
        return LV(self.new_loc(x, ty, 'tmp'))

    # -------------------------------------------------------------- reflecting opaque values by type
    def reflect(self, v, ty):
        if v.op in ('poly', 'struct', 'mat', 'list', 'seq', 'opt', 'ptr', 'closure', 'undef', 'nc',
                    'mlam', 'iter', 'null', 'str'):
            return v
        k = self.prog.scalar(ty)
        if k:
            return coerce(k, v)
        if v.op == 'ite':
            return ite(v.args[0], self.reflect(v.args[1], ty), self.reflect(v.args[2], ty))
        e = self.prog.eigen(ty)
        if e:
            if e[0] == 'M':
                return self.models.reflect_mat(v, e[1], e[2])
            if e[0] == 'Q':
                return quat(*[coerce('r', fld(v, n)) for n in 'wxyz'])
            if e[0] == 'I':
                return struct('Iso', [
                    ('R', self.models.reflect_mat(fld(v, 'R'), 3, 3)),
                    ('t', self.models.reflect_mat(fld(v, 't'), 3, 1))])
        if is_bool(v):
            return v
        return v

    def typed(self, n, v):
        return self.reflect(v, n['t']) if v.op in ('fld', 'sel', 'var', 'ite', 'app', 'pfold', 'fold',
                                                     'uninit') else v

    # -------------------------------------------------------------- branching
    def branch(self, c, f1, f2):
        """run f1 under c, f2 under !c; merge; returns merged value (values must be terms)"""
        if c is TRUE:
            return f1()
        if c is FALSE:
            return f2()
        if c.op == 'undef':
            c = mk_raw('p', (mk_raw('fld', (UNIT, 'undefined')),))
        st0, ex0 = self.store, self.exits
        na0, nb = len(self.assumes), len(self.bounds)
        self.store, self.exits = dict(st0), []
        self.pc.append(c)
        v1 = f1()
        self.pc.pop()
        s1, e1, a1 = self.store, self.exits, self.alive
        as1 = self.assumes[na0:]
        del self.assumes[na0:]
        self.store, self.exits, self.alive = dict(st0), [], True
        nc = not_(c)
        self.pc.append(nc)
        v2 = f2()
        self.pc.pop()
        s2, e2, a2 = self.store, self.exits, self.alive
        as2 = self.assumes[na0:]
        del self.assumes[na0:]
        self.assumes += [or_(nc, a) for a in as1] + [or_(c, a) for a in as2]
        self.exits = ex0
        self.lift(nb, ex0)
        for (ec, k, v, s) in e1:
            self.exits.append((and_(c, ec), k, v, s))
        for (ec, k, v, s) in e2:
            self.exits.append((and_(nc, ec), k, v, s))
        self.alive = a1 or a2
        if a1 and not a2:
            self.store = s1
            self.rel_exits(e2, nc)
            return v1
        if a2 and not a1:
            self.store = s2
            return v2
        self.store = self.merge(c, s1, s2, st0)
        if v1 is v2 or not (a1 and a2):
            return v1
        if isinstance(v1, LV) and isinstance(v2, LV):
            return LV(ite(c, v1.p, v2.p))
        return ite(c, self.val(v1), self.val(v2)) if v1 is not None and v2 is not None else None

    def rel_exits(self, e, c):
        pass

    def merge(self, c, s1, s2, base=None):
        if s1 is s2:
            return s1
        out = dict(s1)
        for k, v2 in s2.items():
            v1 = s1.get(k)
            if v1 is None:
                if k.args[0] == 'deref':
                    out[k] = ite(c, fld(k.args[1], '*'), v2)
                elif k in self.ginit:
                    out[k] = self.mrg(c, self.ginit[k], v2)
                elif base is not None and k not in base:
                    out[k] = v2
                else:
                    out[k] = ite(c, UNDEF, v2)
            elif v1 is not v2:
                out[k] = self.mrg(c, v1, v2)
        for k, v1 in s1.items():
            if k in s2:
                continue
            if k.args[0] == 'deref':
                out[k] = ite(c, v1, fld(k.args[1], '*'))
            elif k in self.ginit:
                out[k] = self.mrg(c, v1, self.ginit[k])
        return out

    def mrg(self, c, a, b):
        return ite(c, a, b)

    def exit(self, kind, v):
        if self.alive:
            self.exits.append((TRUE, kind, v, dict(self.store)))
        self.alive = False

    def bound(self, cond, node, what):
        """an access that must be within its container"""
        if cond is TRUE or not self.alive:
            return
        fr = self.frames[-1].fn if self.frames else {}
        self.bounds.append((tuple(self.pc) + tuple(not_(e[0]) for e in self.exits), cond,
                            (fr.get('q'), fr.get('file'), node.get('ln') if node else None), what, ()))

    def lift(self, nb, exits):
        """accesses recorded since nb are only reached when none of these exits was taken"""
        if exits and nb < len(self.bounds):
            h = tuple(not_(e[0]) for e in exits)
            self.bounds[nb:] = [(b[0] + h,) + b[1:] for b in self.bounds[nb:]]

    def guard_exit(self, c, kind, v):
        """leave with (kind, v) when c holds, continue otherwise"""
        if c is FALSE or not self.alive:
            return
        if c is TRUE:
            self.exit(kind, v)
            return
        self.exits.append((c, kind, v, dict(self.store)))

    def outcome(self, exits, alive, store, kinds):
        """fold an ordered exit list: exits of the given kinds are resolved (merged into the
        continuation), the others are returned with exact conditions."""
        res = None       # (value, store) merged for resolved exits, built from the back
        items = list(exits)
        if alive:
            items.append((TRUE, '#end', UNIT, store))
        # guards: exit i is taken iff c_i and none of the earlier ones
        others = []
        seen = FALSE
        picked = []
        for (c, k, v, s) in items:
            if k in kinds or k == '#end':
                picked.append((c, k, v, s))
            else:
                prev = or_(*[pc for pc, kk, _v, _s in picked]) if picked else FALSE
                others.append((and_(c, not_(prev)), k, v, s))
        # merged continuation
        if not picked:
            return None, others
        c, k, v, s = picked[-1]
        val, st = v, s
        for (c, k, v, s) in reversed(picked[:-1]):
            st = self.merge(c, s, st)
            val = v if (val is v) else ite(c, v, val)
        return (val, st), others

    # -------------------------------------------------------------- calls
    def call_fn(self, f, this, args, frame_env=None, node=None):
        """inline a function with a body.  args: LV or T (already evaluated)."""
        fid = f['id']
        if self.depth > 60 or sum(1 for fr in self.frames if fr.fn['id'] == fid) > 3:
            raise Unsupported('recursion in ' + f['q'])
        self.visited.add((f['q'], f['file'], f['line']))
        fr = Frame(f)
        fr.this = this
        if frame_env:
            fr.env.update(frame_env)
        for i, p in enumerate(f['ps']):
            if i < len(args):
                self.bind_param(fr, p, args[i])
        rt = self.prog.ty(f['rt'])
        fr.retref = rt['k'] == 'ref'
        self.frames.append(fr)
        self.depth += 1
        ex0 = self.exits
        nb = len(self.bounds)
        self.exits = []
        try:
            if f.get('ctor'):
                self.run_inits(f, fr)
            if self.alive and f.get('body'):
                self.stmt(f['body'])
        finally:
            self.frames.pop()
            self.depth -= 1
        e, alive, st = self.exits, self.alive, self.store
        self.exits = ex0
        self.lift(nb, ex0)
        got, others = self.outcome(e, alive, st, ('ret',))
        for o in others:
            self.exits.append(o)
        if got is None:
            self.alive = False
            return UNDEF
        self.alive = True
        v, self.store = got
        if fr.retref and v.op in ('ptr', 'ite'):
            return LV(v)
        return v

    def bind_param(self, fr, p, a):
        t = self.prog.ty(p['t'])
        if t['k'] == 'ref':
            if isinstance(a, LV):
                fr.env[p['id']] = a.p
            else:
                fr.env[p['id']] = self.new_loc(a, t['to'], p['n'])
        else:
            v = self.val(a)
            fr.env[p['id']] = self.new_loc(self.reflect(v, p['t']), p['t'], p['n'])

    def run_inits(self, f, fr):
        done = set()
        for i in f.get('inits', []):
            if not self.alive:
                return
            if 'f' in i:
                n = i['f']
                done.add(n)
                fty = self.field_type(f['cls'], n)
                v = self.init_value(i['e'], fty)
                self.store_at(extend(fr.this, sf(n)), v)
            elif 'base' in i:
                e = i['e']
                self.construct_into(e, fr.this, i['base'])
            elif i.get('deleg'):
                self.construct_into(i['e'], fr.this, f['cls'])

    def construct_into(self, e, this, ty):
        """run a constructor expression on an existing object"""
        if e is None:
            return
        while e['k'] in ('temp',):
            e = e['e']
        if e['k'] == 'ctor':
            if e['fn'].get('def') and not e.get('copy'):
                f = self.prog.funs.get(e['fn']['id'])
                if f is not None:
                    args = self.args(e['fn'], e['args'])
                    self.call_fn(f, this, args)
                    return
            if e.get('default') or not e['args']:
                v = self.default_value(ty)
                if v.op == 'struct':
                    cur = self.load(this)
                    for n, x in fields(v):
                        cur = self.models.with_field(self, cur, n, x)
                    self.store_at(this, cur)
                return
        v = self.val(self.ev(e))
        if v.op == 'struct':
            for n, x in fields(v):
                self.store_at(extend(this, sf(n)), x)
        else:
            self.store_at(this, v)

    def field_type(self, cls, n):
        r = self.prog.rec(cls)
        if r:
            for f in self.prog.fields(r):
                if f['n'] == n:
                    return f['t']
        return None

    def init_value(self, e, ty):
        """value of an initialiser for an object of type ty (a reference keeps the pointer)"""
        t = self.prog.ty(ty) if ty is not None else {'k': '?'}
        if e is None:
            return self.default_value(ty)
        if t['k'] == 'ref':
            x = self.ev(e)
            x = self.materialise(x, t['to'])
            return mk_raw('refv', (x.p,))
        v = self.val(self.ev(e))
        return self.convert(v, ty)

    def convert(self, v, ty):
        """adapt a value to a declared type (Eigen assignment conversions)"""
        if ty is None:
            return v
        e = self.prog.eigen(ty)
        if e:
            v = self.models.eigen_convert(self, v, e)
        return self.reflect(v, ty)

    def blank_var(self, name):
        k = self.blanks[name] = self.blanks.get(name, 0) + 1
        return var('%s#%d' % (name, k), 'o')

    def uninit(self):
        self.uninits += 1
        return mk_raw('uninit', (mk_raw('loc', ('u', self.uninits)),))

    def default_value(self, ty):
        if ty is None:
            return UNDEF
        ti = self.prog.strip_ref(ty)
        t = self.prog.ty(ti)
        k = t['k']
        if k in ('b', 'enum'):
            return self.uninit()
        if k == 'ptr':
            return self.uninit()
        if k == 'arr':
            if t['n'] <= 64:
                return mk_raw('list', tuple(self.default_value(t['of']) for _ in range(t['n'])))
            return var('arr%d' % self.fresh_id(), 'o')
        if k == 'rec':
            nm = t['name']
            e = self.prog.eigen(ti)
            if e:
                return self.models.eigen_default(self, e)
            if nm in ('std::array',):
                n = int(t['args'][1]['I'])
                if n <= 64:
                    return mk_raw('list', tuple(
                        self.default_value(t['args'][0]['T']) for _ in range(n)))
            if nm in SEQ_TYPES:
                return mk_raw('list', ())
            if nm in MAP_TYPES:
                return self.models.map_empty()
            if nm == 'std::optional':
                return NONE_OPT
            if nm in PTR_TYPES:
                return NULL
            if nm in ('std::pair', 'std::tuple'):
                a = t['args']
                if nm == 'std::pair':
                    return struct('pair', [('first', self.default_value(a[0]['T'])),
                                           ('second', self.default_value(a[1]['T']))])
                ps = a[0]['P'] if a and 'P' in a[0] else a
                return struct('tuple', [(str(i), self.default_value(x['T']))
                                        for i, x in enumerate(ps)])
            if nm == 'std::basic_string' or nm == 'std::__cxx11::basic_string':
                return string('')
            r = self.prog.rec(ti)
            if r:
                return self.default_record(r)
            return self.models.default_opaque(self, t)
        return UNDEF

    def default_record(self, r):
        fs = []
        for f in self.prog.fields(r):
            if f.get('init') is not None:
                fr = Frame({'id': 'init', 'q': 'init', 'rt': -1})
                self.frames.append(fr)
                v = self.init_value(f['init'], f['t'])
                self.frames.pop()
            else:
                v = self.default_value(f['t'])
            fs.append((f['n'], v))
        return struct(r['name'], fs)

    _fid = 0

    def fresh_id(self):
        Interp._fid += 1
        return Interp._fid

    def args(self, fnref, nodes):
        out = []
        pts = fnref.get('pt', [])
        for i, a in enumerate(nodes):
            x = self.ev(a)
            if i < len(pts) and self.prog.ty(pts[i])['k'] != 'ref':
                x = self.val(x)
                x = self.reflect(x, pts[i])
            out.append(x)
        return out

    def find_virtual(self, fnref, obj):
        """resolve a virtual call on an object of known dynamic type"""
        v = self.load(obj) if isinstance(obj, T) else obj
        cands = [fnref['id']]
        out = []
        seen = set()
        while cands:
            c = cands.pop()
            if c in seen:
                continue
            seen.add(c)
            if c in self.prog.funs:
                out.append(self.prog.funs[c])
            cands += self.prog.over.get(c, [])
        if v.op == 'struct':
            dyn = v.args[0]
            # most derived first
            chain = self.class_chain(dyn)
            for cname in chain:
                for f in out:
                    r = self.prog.rec(f['cls'])
                    if r and r['name'] == cname:
                        return f
            return None
        # an object declared with a class that nothing derives from
        ty = None
        if isinstance(obj, T) and obj.op == 'ptr':
            if len(obj.args) == 1:
                ty = self.loctype.get(obj.args[0])
        r = self.prog.rec(ty) if ty is not None else None
        if r and not self.prog.derived(r['name']):
            for cname in self.class_chain(r['name']):
                for f in out:
                    fr = self.prog.rec(f['cls'])
                    if fr and fr['name'] == cname:
                        return f
        return None

    def class_chain(self, name):
        out = [name]
        r = self.prog.records.get('~' + name)
        while r:
            nxt = None
            for b in r.get('bases', []):
                br = self.prog.rec(b)
                if br:
                    out.append(br['name'])
                    nxt = nxt or br
            r = nxt
        return out

    def call(self, node, fnref, obj, argn, evargs=None):
        """obj: LV/T/None; argn: argument nodes (or pre-evaluated list via evargs)"""
        q = fnref['q']
        if q in self.opaque_q:
            args = evargs if evargs is not None else self.args(fnref, argn)
            return self.opaque_call(node, fnref, obj, args)
        m = self.models.lookup(self, fnref, obj)
        if m is None and fnref['n'] == 'operator=' and obj is not None and isinstance(obj, LV):
            # copying an object whose contents are not modelled replaces it as a whole
            r = self.prog.rec(fnref['cls']) if fnref.get('cls', -1) >= 0 else None
            if r is not None and not self.prog.fields(r):
                args = evargs if evargs is not None else self.args(fnref, argn)
                v = self.val(args[0])
                if v.op != 'struct' or v.args[0] == r['name']:
                    self.store_at(obj.p, v)
                    return obj
        if m is None or getattr(m, 'weak', False):
            f = None
            if fnref.get('virt') and obj is not None and not node.get('qual'):
                o = self.materialise(obj)
                f = self.find_virtual(fnref, o.p)
                if f is None:
                    v = self.val(o)
                    if v.op == 'struct' or not self.has_impl(fnref):
                        f = None
                    f = None
            elif fnref.get('def'):
                f = self.prog.funs.get(fnref['id'])
            if f is not None:
                args = evargs if evargs is not None else self.args(fnref, argn)
                this = None
                if obj is not None and not fnref.get('st'):
                    this = self.materialise(obj).p
                return self.call_fn(f, this, args, node=node)
        args = evargs if evargs is not None else self.args(fnref, argn)
        if m is not None:
            r = m(self, node, fnref, obj, args)
            if r is not NotImplemented:
                return r
        return self.opaque_call(node, fnref, obj, args)

    def has_impl(self, fnref):
        return fnref['id'] in self.prog.funs

    def reify(self, x):
        """value of an argument for use inside an uninterpreted application"""
        v = self.val(x)
        if isinstance(x, LV) and x.p.op == 'ptr' and len(x.p.args) == 1:
            return self.snap(v, (x.p.args[0],))
        return self.snap(v)

    def snap(self, v, seen=()):
        """replace pointers to objects by their contents"""
        if v.op == 'ptr':
            loc = v.args[0]
            if loc in seen:
                return mk_raw('cyc', (len(seen) - seen.index(loc),) + v.args[1:])
            if len(seen) > 4:
                return v
            if loc.args[0] == 'deref' and loc not in self.store:
                return v if len(v.args) > 1 else loc.args[1]
            return mk_raw('box', (self.snap(self.load(v), seen + (loc,)),))
        if v.op == 'refv':
            return self.snap(v.args[0], seen)
        if v.op == 'iter':
            return mk_raw('iterv', (self.snap(v.args[0], seen), v.args[1]) + v.args[2:])
        if v.op == 'struct':
            return struct(v.args[0], [(n, self.snap(x, seen)) for n, x in fields(v)])
        if v.op == 'list':
            return mk_raw('list', tuple(self.snap(x, seen) for x in v.args))
        if v.op == 'upd':
            return mk_raw('upd', (v.args[0],) + tuple(
                mk_raw('f', (x.args[0], self.snap(x.args[1], seen))) for x in v.args[1:]))
        if v.op == 'opt':
            return opt(v.args[0], self.snap(v.args[1], seen))
        if v.op == 'ite' and has_ptr(v):
            return ite(v.args[0], self.snap(v.args[1], seen), self.snap(v.args[2], seen))
        if v.op in ('closure', 'bindv'):
            return mk_raw(v.op, tuple(self.snap(a, seen) if type(a) is T else a
                                           for a in v.args))
        return v

    def opaque_call(self, node, fnref, obj, args):
        q = fnref['q']
        self.opaque_calls[q] = self.opaque_calls.get(q, 0) + 1
        parts = []
        if obj is not None and not fnref.get('st'):
            parts.append(self.reify(obj))
        pt = fnref.get('pt', [])
        for i, a in enumerate(args):
            v = self.reify(a)
            if i < len(pt) and v.op in ('fld', 'sel', 'var', 'app', 'fold', 'pfold', 'ite') and \
                    self.prog.eigen(self.prog.strip_ref(pt[i])):
                v = self.reflect(v, self.prog.strip_ref(pt[i]))
            parts.append(v)
        ts = tuple(parts)
        base = mk_raw('app', (q,) + ts)
        for w in sorted(x for x in self.opaque_q if x.startswith('throws:' + q + '=')):
            # it may refuse the call, having done nothing
            self.guard_exit(coerce('p', mk_raw('app', (w,) + ts)), 'throw',
                            mk_raw('exc', (w[len('throws:' + q + '='):], UNIT)))
        # effects on non-const objects
        changed = False
        if obj is not None and isinstance(obj, LV) and not fnref.get('st') and not fnref.get('cst'):
            self.store_at(obj.p, mk_raw('app', ('mut:' + q,) + ts))
            changed = True
        for i, a in enumerate(args):
            if isinstance(a, LV) and i < len(fnref.get('pt', [])):
                pt = self.prog.ty(fnref['pt'][i])
                if pt['k'] == 'ref' and not self.prog.ty(pt['to']).get('const') and not pt.get('rv'):
                    out = mk_raw('app', ('out%d:' % i + q,) + ts)
                    changed = True
                    old = self.val(a)
                    if not self.view_effect(old, out):
                        if 'keep:' + q in self.opaque_q:
                            out = (lambda o, c: seq(length(c), lambda j: sel(o, j)))(out, old)
                        self.store_at(a.p, out)
        rt = self.prog.ty(fnref['rt'])
        if rt['k'] == 'ref':
            return LV(ptr(mk_raw('loc', ('deref', base))))
        if rt.get('b') == 'void':
            if not changed and not q.startswith('pcl::console::'):   # logging aside
                # it was called for an effect elsewhere: the history of such calls is part of the outcome
                w = mk_raw('loc', ('g', 'calls'))
                if w not in self.store:
                    self.store[w] = self.ginit[w] = var('g:calls', 'o')
                self.store_at(ptr(w), mk_raw('app', ('mut:' + q, self.store[w]) + ts))
            return UNIT
        r = self.reflect(base, fnref['rt'])
        if 'same:' + q in self.opaque_q and args:
            r = seq(length(self.val(args[0])), lambda j: sel(base, j))
        return r

    def view_effect(self, v, out):
        """an opaque callee was given a mutable view: the viewed elements change, the view does not"""
        if v.op != 'struct':
            return False
        its = [x for _n, x in fields(v) if x.op == 'iter']
        if len(its) != 2 or its[0].args[0] is not its[1].args[0]:
            return False
        p, b, e = its[0].args[0], its[0].args[1], its[1].args[1]
        c = self.load(p)
        self.store_at(p, seq(length(c), lambda j: ite(
            and_(ge(j, b), lt(j, e)), sel(out, sub(j, b)), sel(c, j))))
        return True

    # -------------------------------------------------------------- expressions
    def rv(self, n):
        v = self.val(self.ev(n))
        return self.typed(n, v)

    def ev(self, n):
        if n is None:
            return UNDEF
        if not self.alive:
            return UNDEF
        f = getattr(self, 'x_' + n['k'], None)
        if f is None:
            raise Unsupported('expression ' + n['k'])
        return f(n)

    def num(self, n):
        v = self.rv(n)
        if v.op == 'poly':
            return v
        if v.op == 'undef':
            return v
        if is_bool(v):
            return b2n(v)
        k = self.prog.scalar(n['t'])
        return coerce(k if k and k != 'p' else 'r', v)

    def cond(self, n):
        v = self.rv(n)
        if is_bool(v):
            return v
        if v.op == 'poly':
            return not_(cmp0('eq', v))
        if v.op in ('ptr', 'closure'):
            return TRUE
        if v.op == 'null':
            return FALSE
        if v.op == 'undef':
            return v
        return coerce('p', v)

    def x_int(self, n):
        k = self.prog.scalar(n['t'])
        v = Q(int(n['v']))
        if k == 'p':
            return TRUE if v else FALSE
        return num(v)

    def x_flt(self, n):
        s = n['v']
        v = Q(s) if '/' not in s else Q(s)
        t = self.prog.ty(n['t'])
        if t.get('bits') == 32:
            v = to_f32(v)
        return num(v)

    def x_bool(self, n):
        return TRUE if n['v'] else FALSE

    def x_str(self, n):
        return string(n['v'])

    def x_null(self, n):
        return NULL

    def x_zero(self, n):
        k = self.prog.scalar(n['t'])
        if k == 'p':
            return FALSE
        if k:
            return ZERO
        t = self.prog.ty(n['t'])
        if t['k'] == 'ptr':
            return NULL
        return self.default_value(n['t'])

    def x_load(self, n):
        x = self.ev(n['e'])
        v = self.val(x)
        if v.op == 'uninit':
            v2 = v
            k = self.prog.scalar(n['t'])
            return coerce(k, v2) if k else v2
        return self.reflect(v, n['t'])

    def x_temp(self, n):
        x = self.ev(n['e'])
        if isinstance(x, LV):
            return x
        return LV(self.new_loc(x, n['t'], 'tmp'))

    def x_upcast(self, n):
        return self.ev(n['e'])

    def x_cast(self, n):
        ck = n['ck']
        if ck in ('NullToPointer',):
            return NULL
        if ck in ('ToVoid',):
            self.ev(n['e'])
            return UNIT
        if ck == 'ArrayToPointerDecay':
            x = self.ev(n['e'])
            if isinstance(x, LV):
                return mk_raw('iter', (x.p, ZERO))
            return x
        if ck in ('IntegralToFloating',):
            v = self.num(n['e'])
            return v
        if ck == 'FloatingCast':
            v = self.num(n['e'])
            t = self.prog.ty(n['t'])
            s = self.prog.ty(n['e']['t'])
            if t.get('bits') == 32 and s.get('bits', 64) > 32:
                return f32(v)
            return v
        if ck == 'FloatingToIntegral':
            v = self.num(n['e'])
            if v.op == 'poly' and self.rounded.get(v, 0) > 1 and int_quotient(v) is not None:
                # rounding errors may carry it across a whole number
                v = atom(mk_raw('app', ('accumulated rounding', v)))
            v = trunc(v)
            t = self.prog.ty(n['t'])
            if t.get('bits', 64) <= 16 and v.op == 'poly':
                return icast(t['bits'], bool(t.get('sg')), v)
            return v
        if ck == 'IntegralCast':
            v = self.num(n['e'])
            t = self.prog.ty(n['t'])
            if t.get('k') == 'b' and t.get('bits', 64) <= 16 and v.op == 'poly':
                s = self.prog.ty(n['e']['t'])
                if s.get('bits', 64) > t['bits'] or (s.get('sg') != t.get('sg')):
                    return icast(t['bits'], bool(t.get('sg')), v)
            if t.get('k') == 'b' and not t.get('sg') and v.op == 'poly':
                c = const(v)
                if c is not None and c < 0:
                    return num(c + (1 << t['bits']))
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.cond(n['e'])
        if ck in ('BooleanToSignedIntegral',):
            return self.num(n['e'])
        if ck in ('MemberPointerToBoolean',):
            return TRUE
        v = self.ev(n['e'])
        if ck in ('LValueBitCast', 'BitCast', 'Dependent'):
            return v
        return v

    def x_var(self, n):
        for fr in (self.frames[-1],):
            p = fr.env.get(n['id'])
            if p is not None:
                return LV(p)
        # static local or unknown
        p = self.statics.get(n['id'])
        if p is not None:
            return LV(p)
        raise Unsupported('unbound variable %s in %s' % (n.get('n'), self.frames[-1].fn['q']))

    def x_gvar(self, n):
        if 'cv' in n:
            k = self.prog.scalar(n['t'])
            if k == 'p':
                return TRUE if n['cv'] != '0' else FALSE
            return num(int(n['cv']))
        q = n['q']
        m = self.models.gvar(self, q, n)
        if m is not None:
            return m
        loc = self.named_loc(q, n['t'])
        if loc not in self.store:
            g = self.prog.globals.get(q)
            v = None
            if g and 'init' in g and self.prog.ty(g['t']).get('const'):
                fr = Frame({'id': 'ginit', 'q': 'ginit ' + q, 'rt': -1})
                self.frames.append(fr)
                pc, self.pc = self.pc, []
                try:
                    v = self.init_value(g['init'], g['t'])
                finally:
                    self.frames.pop()
                    self.pc = pc
            if v is None:
                v = self.reflect(var('g:' + q, 'o'), n['t'])
            self.store[loc] = v
            self.ginit[loc] = v
        return LV(ptr(loc))

    def x_binding(self, n):
        p = self.frames[-1].env.get(n['id'])
        if p is None:
            raise Unsupported('binding ' + n['n'])
        return LV(p)

    def x_this(self, n):
        return self.frames[-1].this if self.frames[-1].this is not None else UNDEF

    def x_mem(self, n):
        b = self.ev(n['b'])
        nm = n['n']
        if n.get('arrow'):
            p = self.deref(self.val(b))
        elif isinstance(b, LV):
            p = b.p
        else:
            if n.get('anon'):
                return b
            return self.unref(self.models.proj_field(self, b, nm))
        if n.get('anon'):
            return LV(p)
        p2 = extend(p, sf(nm))
        return self.member_lv(p2)

    def member_lv(self, p2):
        v = self.load(p2)
        if v.op == 'refv':
            return LV(v.args[0])
        if v.op == 'ite' and v.args[1].op == 'refv' and v.args[2].op == 'refv':
            return LV(ite(v.args[0], v.args[1].args[0], v.args[2].args[0]))
        return LV(p2)

    def unref(self, v):
        if v.op == 'refv':
            return LV(v.args[0])
        return v

    def init_anon(self, r, e):
        """fields of an anonymous member from its initialiser"""
        fs = self.prog.flat_anon(r)
        if e is None or e['k'] != 'init' or not e['e']:
            return [(f['n'], self.default_value(f['t'])) for f in fs]
        if self.prog.is_union(r):
            u = e.get('uf', '')
            v = e['e'][0]
            if u == '':
                return self.init_anon(self.prog.rec(v['t']), v)
            w = self.val(self.ev(v))
            if w.op == 'list':
                return [(f['n'], w.args[i]) for i, f in enumerate(fs)]
            return [(fs[0]['n'], w)]
        out = []
        for f, x in zip(fs, list(e['e']) + [None] * len(fs)):
            out.append((f['n'], self.init_value(x, f['t'])))
        return out

    def anon_array(self, n, b, i):
        """element i of an array that shares its storage with named scalar members"""
        while n['k'] in ('cast', 'paren', 'temp'):
            n = n['e']
        if n['k'] != 'mem' or n['b']['k'] != 'mem' or not n['b'].get('anon'):
            return None
        r = self.prog.rec(n['b']['t'])
        if r is None or not self.prog.is_union(r):
            return None
        fs = self.prog.flat_anon(r)
        k = TM.const(i)
        if k is None:
            raise Unsupported('index into a union array')
        k = int(k)
        base = self.ev(n['b'])
        if k < len(fs):
            return LV(extend(base.p, sf(fs[k]['n'])))
        return LV(self.new_loc(UNDEF, n['t'], 'pad'))

    def x_idx(self, n):
        b = self.ev(n['b'])
        i = self.num(n['i'])
        a = self.anon_array(n['b'], b, i)
        if a is not None:
            return a
        bv_ = self.val(b) if not (isinstance(b, LV) and self.prog.ty(n['b']['t'])['k'] == 'arr') else None
        if bv_ is None:
            return LV(extend(b.p, si(i)))
        if bv_.op == 'iter':
            return LV(extend(bv_.args[0], si(add(bv_.args[1], i))))
        if bv_.op == 'ptr':
            if len(bv_.args) > 1 and bv_.args[-1].op == 'si':
                return LV(self.step(bv_, i))     # a pointer to an element, not to an array
            return LV(extend(bv_, si(i)))
        return sel(bv_, i)

    def x_call(self, n):
        if 'fn' in n:
            return self.call(n, n['fn'], None, n['args'])
        c = self.rv(n['callee'])
        args = [self.ev(a) for a in n['args']]
        return self.call_value(n, c, args)

    def x_mcall(self, n):
        fn = n['fn']
        obj = self.ev(n['obj'])
        if n.get('arrow'):
            obj = LV(self.deref(self.val(obj)))
        elif not isinstance(obj, LV):
            obj = self.typed(n['obj'], obj)
        return self.call(n, fn, obj, n['args'])

    def x_ocall(self, n):
        fn = n.get('fn')
        op = n['op']
        if fn is None:
            a = [self.rv(x) for x in n['args']]
            return mk_raw('app', ('op' + op,) + tuple(a))
        if fn.get('mem') and not fn.get('st'):
            obj = self.ev(n['args'][0])
            if fn.get('lam') and fn['n'] == 'operator()':
                c = self.val(obj)
                if c.op in ('closure', 'ite'):
                    return self.call_value(n, c, self.args(fn, n['args'][1:]))
            return self.call(n, fn, obj, n['args'][1:])
        return self.call(n, fn, None, n['args'])

    def functor(self, n, c):
        """the call operator of an object of class type"""
        fs = []
        for f in self.prog.funs.values():
            if f['q'].endswith('operator()') and not f.get('lam') and f.get('cls') is not None:
                r = self.prog.rec(f['cls'])
                if r and r['name'] == c.args[0]:
                    fs.append(f)
        if len(fs) > 1:
            ts = {self.prog.ty(a['T'])['s'] for a in n.get('ftargs', []) if 'T' in a}
            fs = [f for f in fs if self.prog.ty(f['cls'])['s'] in ts] or fs
        if not fs:
            return None
        if len(fs) > 1:
            raise Unsupported('which call operator of ' + str(c.args[0]))
        return fs[0]

    def call_value(self, n, c, args):
        """call a function value (closure, bound function, ...)"""
        if c.op == 'ite':
            cond = c.args[0]
            return self.branch(cond, lambda: self.call_value(n, c.args[1], args),
                               lambda: self.call_value(n, c.args[2], args))
        if c.op == 'closure':
            return self.call_closure(n, c, args)
        if c.op == 'struct':
            f = self.functor(n, c)
            if f is not None:
                return self.call_fn(f, self.new_loc(c, f['cls'], 'functor'), args)
        if c.op == 'fnptr':
            f = self.prog.funs.get(c.args[0])
            if f is not None:
                return self.call_fn(f, None, [self.adapt(f, i, a) for i, a in enumerate(args)])
            fnref = FNREFS.get(c.args[0])
            if fnref:
                return self.call(n, fnref, None, None, evargs=args)
        if c.op == 'bindv':
            target, bound = c.args[0], c.args[1:]
            real = []
            for b in bound:
                if b.op == 'ph':
                    real.append(args[b.args[0] - 1])
                elif b.op == 'refv':
                    real.append(LV(b.args[0]))
                else:
                    real.append(b)
            return self.call_value(n, target, real)
        if c.op == 'memfn':
            obj = args[0]
            if not isinstance(obj, LV):
                v = obj
                obj = LV(self.deref(v)) if v.op in ('ptr', 'ite', 'fld', 'var') else obj
            f = self.prog.funs.get(c.args[0])
            fnref = FNREFS.get(c.args[0])
            if fnref is not None:
                return self.call(n, fnref, obj, None, evargs=args[1:])
        self.opaque_calls['<function value>'] = self.opaque_calls.get('<function value>', 0) + 1
        base = mk_raw('app', ('call', self.snap(c)) + tuple(self.reify(a) for a in args))
        rt = n.get('t', -1)
        if n.get('lv'):
            return LV(ptr(mk_raw('loc', ('deref', base))))
        return self.reflect(base, rt) if rt is not None and rt >= 0 else base

    def adapt(self, f, i, a):
        return a

    def pick_op(self, c, args, n=None):
        """the call operator of a (possibly generic) lambda matching the arguments"""
        ids = [x for x in c.args[0].split('|')]
        if len(ids) == 1:
            return self.prog.funs.get(ids[0])
        want = None
        if n is not None and 'fn' in n and n['fn']['id'] in ids:
            want = n['fn']['id']
        fs = [self.prog.funs[i] for i in ids if i in self.prog.funs]
        if want:
            return self.prog.funs.get(want)
        return fs[0] if fs else None

    def call_closure(self, n, c, args):
        f = self.pick_op(c, args, n)
        if f is None:
            raise Unsupported('lambda without body')
        env = {}
        this = None
        for cap in c.args[1:]:
            vid, kind, p = cap.args
            if kind == 'this':
                this = p
            elif kind == 'ref':
                env[vid] = p
            else:
                # by copy: the closure owns the value
                env[vid] = self.new_loc(p, None, 'cap')
        return self.call_fn(f, this, args, frame_env=env)

    def x_lambda(self, n):
        caps = []
        fr = self.frames[-1]
        for c in n['caps']:
            if c.get('this'):
                caps.append(mk_raw('cap', (-1, 'this', fr.this if fr.this is not None else UNDEF)))
            elif 'id' in c:
                if 'init' in c:
                    v = self.val(self.ev(c['init']))
                    caps.append(mk_raw('cap', (c['id'], 'val', v)))
                    continue
                p = fr.env.get(c['id'])
                if p is None:
                    p = self.statics.get(c['id'])
                if p is None:
                    continue
                if c.get('ref'):
                    caps.append(mk_raw('cap', (c['id'], 'ref', p)))
                else:
                    caps.append(mk_raw('cap', (c['id'], 'val', self.load(p))))
        ids = '|'.join(o['id'] for o in n['ops'])
        return mk_raw('closure', (ids,) + tuple(caps))

    def x_fnref(self, n):
        fn = n['fn']
        FNREFS[fn['id']] = fn
        return mk_raw('memfn' if fn.get('mem') and not fn.get('st') else 'fnptr', (fn['id'],))

    def x_boundfn(self, n):
        return self.x_fnref(n)

    def x_ctor(self, n):
        fn = n['fn']
        ty = n['t']
        t = self.prog.ty(self.prog.strip_ref(ty))
        if n.get('copy'):
            a = self.ev(n['args'][0])
            f = self.prog.funs.get(fn['id'])
            if f is not None and not f.get('dflt'):
                this = self.new_loc(self.default_value(ty), ty, 'obj')
                self.call_fn(f, this, [a])
                return self.load(this)
            v = self.val(a)
            return self.reflect(v, ty)
        m = self.models.ctor(self, n, t, fn)
        if m is not NotImplemented:
            return m
        f = self.prog.funs.get(fn['id'])
        if f is not None:
            init = self.blank(ty)
            this = self.new_loc(init, ty, 'obj')
            args = self.args(fn, n['args'])
            self.call_fn(f, this, args)
            self.built = (n, this)
            return self.load(this)
        if n.get('default') or not n['args']:
            if n.get('zi'):
                return self.zero_value(ty)
            return self.default_value(ty)
        args = self.args(fn, n['args'])
        return self.reflect(mk_raw('app', ('ctor:' + t.get('name', t['s']),) +
                                   tuple(self.reify(a) for a in args)), ty)

    def blank(self, ty):
        r = self.prog.rec(ty)
        if r is None:
            return struct(self.prog.name(ty), [])
        k = self.blanks[r['name']] = self.blanks.get(r['name'], 0) + 1
        return struct(r['name'], [
            (f['n'], mk_raw('uninit', (mk_raw('loc', ('u', '%s#%d.%s' % (r['name'], k, f['n']))),)))
            for f in self.prog.fields(r)])

    def zero_value(self, ty):
        v = self.default_value(ty)
        return self.zero_uninit(v, ty)

    def zero_uninit(self, v, ty):
        if v.op == 'uninit':
            k = self.prog.scalar(ty)
            if k == 'p':
                return FALSE
            if k:
                return ZERO
            if self.prog.ty(ty)['k'] == 'ptr':
                return NULL
            return v
        if v.op == 'struct':
            r = self.prog.rec(ty)
            ft = {f['n']: f['t'] for f in self.prog.fields(r)} if r else {}
            return struct(v.args[0], [(n, self.zero_uninit(x, ft[n]) if n in ft else x)
                                      for n, x in fields(v)])
        if v.op == 'list' and ty is not None:
            t = self.prog.ty(self.prog.strip_ref(ty))
            et = None
            if t['k'] == 'arr':
                et = t['of']
            elif t.get('name') == 'std::array':
                et = t['args'][0]['T']
            if et is not None:
                return mk_raw('list', tuple(self.zero_uninit(x, et) for x in v.args))
        return v

    def x_initlist(self, n):
        x = self.ev(n['e'])
        v = self.val(x)
        return v

    def x_init(self, n):
        t = self.prog.ty(self.prog.strip_ref(n['t']))
        if t['k'] == 'arr' or t.get('name') == 'std::array':
            if t.get('name') == 'std::array':
                if len(n['e']) == 1 and n['e'][0]['k'] == 'init':
                    return self.x_init(dict(n['e'][0], t=n['e'][0]['t']))
                if not n['e']:
                    return self.zero_uninit(self.default_value(n['t']), n['t'])
                cnt = int(t['args'][1]['I'])
                of = t['args'][0]['T']
            else:
                cnt = t['n']
                of = t['of']
            items = [self.init_value(e, of) for e in n['e']]
            while len(items) < cnt:
                items.append(self.zero_uninit(self.default_value(of), of))
            return mk_raw('list', tuple(items))
        if self.prog.scalar(n['t']):
            if n['e']:
                return self.rv(n['e'][0])
            return self.x_zero(n)
        r = self.prog.rec(n['t'])
        if r is not None:
            fs = []
            own = r['own']
            bases = r.get('bases', [])
            es = list(n['e'])
            out = []
            for b in bases:
                e = es.pop(0) if es else None
                v = self.val(self.ev(e)) if e is not None else self.default_value(b)
                if v.op == 'struct':
                    out += fields(v)
            for f, e in zip(own, es + [None] * (len(own) - len(es))):
                ar = self.prog.rec(f['t']) if f['n'] == '' else None
                if ar is not None:
                    out += self.init_anon(ar, e)
                else:
                    out.append((f['n'], self.init_value(e, f['t'])))
            return struct(r['name'], out)
        if len(n['e']) == 1:
            return self.val(self.ev(n['e'][0]))
        if not n['e']:
            return self.zero_value(n['t'])
        return mk_raw('app', ('init:' + t['s'],) + tuple(self.reify(self.ev(e)) for e in n['e']))

    def x_un(self, n):
        op = n['op']
        if op in ('++', '--'):
            x = self.ev(n['e'])
            old = self.reflect(self.val(x), n['e']['t'])
            new = self.step(old, ONE if op == '++' else num(-1))
            self.store_at(x.p, new)
            if n.get('post'):
                return old
            return x
        if op == '-':
            v = self.num(n['e'])
            return neg(v) if v.op == 'poly' else v
        if op == '+':
            return self.num(n['e'])
        if op == '!':
            return not_(self.cond(n['e']))
        if op == '*':
            v = self.rv(n['e'])
            return LV(self.deref(v))
        if op == '&':
            x = self.ev(n['e'])
            if isinstance(x, LV):
                return x.p
            return x
        if op == '~':
            return mk_raw('poly', ((((mk_raw('app', ('i:~', self.num(n['e']))), 1),), Q(1)),))
        if op in ('__extension__',):
            return self.ev(n['e'])
        raise Unsupported('unary ' + op)

    def step(self, v, d):
        if v.op == 'poly':
            return add(v, d)
        if v.op == 'iter':
            return mk_raw('iter', (v.args[0], add(v.args[1], d)) + v.args[2:])
        if v.op == 'ite':
            return ite(v.args[0], self.step(v.args[1], d), self.step(v.args[2], d))
        if v.op == 'undef':
            return v
        if v.op == 'ptr' and v.args[-1].op == 'si':
            return mk_raw('ptr', v.args[:-1] + (si(add(v.args[-1].args[0], d)),))
        raise Unsupported('step of ' + show(v))

    def x_bin(self, n):
        op = n['op']
        if op == '&&':
            c = self.cond(n['l'])
            return self.branch(c, lambda: self.cond(n['r']), lambda: FALSE)
        if op == '||':
            c = self.cond(n['l'])
            return self.branch(c, lambda: TRUE, lambda: self.cond(n['r']))
        if op == ',':
            self.ev(n['l'])
            return self.ev(n['r'])
        if op == '=':
            r = self.rv(n['r'])
            l = self.ev(n['l'])
            self.store_at(l.p, r)
            return l
        a = self.rv(n['l'])
        b = self.rv(n['r'])
        return self.binop(op, a, b, n)

    def note_rounding(self, op, a, b, r):
        """how often a whole-number quotient computed in floating point may have been rounded"""
        sa, sb = self.rounded.get(a, 0), self.rounded.get(b, 0)
        if op == '/' and not sa and not sb:
            s = 0 if is_int(r) else 1
        else:
            s = 2 if sa or sb else 0
        if s > self.rounded.get(r, 0):
            self.rounded[r] = s

    def binop(self, op, a, b, n):
        if a.op == 'undef' or b.op == 'undef':
            return UNDEF
        if op in ('==', '!='):
            r = self.equal_val(a, b)
            return r if op == '==' else not_(r)
        if a.op == 'iter' or b.op == 'iter':
            return self.models.iter_op(self, op, a, b)
        if a.op in ('ite',) and a.args[1].op == 'iter' or b.op == 'ite' and b.args[1].op == 'iter':
            if a.op == 'ite':
                return ite(a.args[0], self.binop(op, a.args[1], b, n), self.binop(op, a.args[2], b, n))
            return ite(b.args[0], self.binop(op, a, b.args[1], n), self.binop(op, a, b.args[2], n))
        isint = self.prog.scalar(n['t']) == 'z'
        if is_bool(a):
            a = b2n(a)
        if is_bool(b):
            b = b2n(b)
        if a.op != 'poly' or b.op != 'poly':
            if a.op != 'poly':
                a = coerce('z' if isint else 'r', a) if a.op in ('fld', 'sel', 'app', 'ite', 'var', 'uninit') else a
            if b.op != 'poly':
                b = coerce('z' if isint else 'r', b) if b.op in ('fld', 'sel', 'app', 'ite', 'var', 'uninit') else b
            if a.op != 'poly' or b.op != 'poly':
                raise Unsupported('binary %s on %s' % (op, a.op))
        if op in ('+', '-', '*'):
            r = add(a, b) if op == '+' else sub(a, b) if op == '-' else mul(a, b)
            if not isint and r.op == 'poly' and const(r) is None:
                self.note_rounding(op, a, b, r)
            return r
        if op == '/':
            t = self.prog.scalar(n['t'])
            if t == 'z' or n.get('int'):
                return idiv(a, b)
            r = div(a, b)
            if r.op == 'poly' and const(r) is None:
                self.note_rounding(op, a, b, r)
            return r
        if op == '%':
            return imod(a, b)
        if op == '<':
            return lt(a, b)
        if op == '>':
            return gt(a, b)
        if op == '<=':
            return le(a, b)
        if op == '>=':
            return ge(a, b)
        if op == '<<' and const(b) is not None:
            return scale(a, Q(2) ** int(const(b)))
        if op == '>>' and const(b) is not None:
            return idiv(a, num(Q(2) ** int(const(b))))
        if op in ('&', '|', '^') and const(a) is not None and const(b) is not None:
            x, y = int(const(a)), int(const(b))
            return num({'&': x & y, '|': x | y, '^': x ^ y}[op])
        return atom(mk_raw('app', ('i:' + op, a, b)))

    def equal_val(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'ite' and a.op != 'poly':
            return ite(a.args[0], self.equal_val(a.args[1], b), self.equal_val(a.args[2], b))
        if b.op == 'ite':
            return ite(b.args[0], self.equal_val(a, b.args[1]), self.equal_val(a, b.args[2]))
        if a.op == 'iter' and b.op == 'iter':
            return eqn(a.args[1], b.args[1])
        if is_bool(a) and is_bool(b):
            return or_(and_(a, b), and_(not_(a), not_(b)))
        if is_bool(a):
            a = b2n(a)
        if is_bool(b):
            b = b2n(b)
        if a.op == 'poly' or b.op == 'poly':
            a = a if a.op == 'poly' else coerce('z' if is_int(b) else 'r', a)
            b = b if b.op == 'poly' else coerce('z' if is_int(a) else 'r', b)
            return eqn(a, b)
        if a.op == 'ptr' and b.op == 'ptr':
            if a.args[0] is not b.args[0] and a.args[0].args[0] != 'deref' and \
                    b.args[0].args[0] != 'deref':
                return FALSE
        return oeq(a, b)

    def x_cas(self, n):
        l = self.ev(n['l'])
        r = self.rv(n['r'])
        a = self.reflect(self.val(l), n['l']['t'])
        fake = dict(n)
        fake['t'] = n.get('ct', n['t'])
        v = self.binop(n['op'], a, r, fake)
        tt = self.prog.ty(self.prog.strip_ref(n['l']['t']))
        ct = self.prog.ty(n.get('ct', n['t']))
        if v.op == 'poly':
            if tt.get('b') == 'float' and tt.get('bits') == 32 and ct.get('bits') == 64:
                v = f32(v)
            if tt.get('b') == 'int' and ct.get('b') == 'float':
                v = trunc(v)
        self.store_at(l.p, v)
        return l

    def x_cond(self, n):
        c = self.cond(n['c'])
        if n.get('lv'):
            r = self.branch(c, lambda: self.ev(n['a']), lambda: self.ev(n['b']))
        else:
            r = self.branch(c, lambda: self.rv(n['a']), lambda: self.rv(n['b']))
        return r

    def x_throw(self, n):
        ty = self.prog.name(n['tt']) if 'tt' in n else 'rethrow'
        v = UNIT
        if n.get('e') is not None:
            v = self.val(self.ev(n['e']))
        self.exit('throw', mk_raw('exc', (ty, v)))
        return UNDEF

    def x_new(self, n):
        if n.get('init') is not None:
            v = self.val(self.ev(n['init']))
        else:
            v = self.default_value(n['of'])
        return self.new_loc(v, n['of'], 'heap')

    def x_delete(self, n):
        self.ev(n['e'])
        return UNIT

    def x_opq(self, n):
        cls = n.get('cls')
        if cls == 'memptrcall':
            raise Unsupported('member pointer call')
        if cls in ('RecoveryExpr',):
            raise Unsupported('parse error')
        a = tuple(self.reify(self.ev(x)) for x in n.get('args', []))
        self.opaque_calls['<%s>' % cls] = 1
        return self.reflect(mk_raw('app', ('opq:%s' % cls,) + a), n['t'])

    # -------------------------------------------------------------- statements
    def stmt(self, s):
        if s is None or not self.alive:
            return
        getattr(self, 's_' + s['k'])(s)

    def s_block(self, s):
        for x in s['b']:
            if not self.alive:
                return
            self.stmt(x)

    def s_expr(self, s):
        self.ev(s['e'])

    def s_opqs(self, s):
        raise Unsupported('statement ' + s['cls'])

    def s_decl(self, s):
        for d in s['d']:
            self.declare(d)

    def declare(self, d):
        fr = self.frames[-1]
        t = self.prog.ty(d['t'])
        if d.get('static'):
            loc = self.named_loc('static:%s:%d:%s' % (fr.fn['q'], d['ln'], d['n']), d['t'])
            if loc not in self.store:
                v = self.reflect(var('static:%s:%s' % (fr.fn['q'], d['n']), 'o'), d['t'])
                if t.get('const') and d.get('init') is not None:
                    v = self.init_value(d['init'], d['t'])
                self.store[loc] = v
                self.ginit[loc] = v
            fr.env[d['id']] = ptr(loc)
            return
        if t['k'] == 'ref':
            x = self.ev(d['init'])
            x = self.materialise(x, t['to'])
            fr.env[d['id']] = x.p
        else:
            self.built = None
            v = self.init_value(d.get('init'), d['t'])
            e = d.get('init')
            while e is not None and e['k'] == 'temp':
                e = e['e']
            if self.built is not None and self.built[0] is e and self.load(self.built[1]) is v:
                # constructed in place: pointers its constructor kept point to the variable
                fr.env[d['id']] = self.built[1]
            else:
                fr.env[d['id']] = self.new_loc(v, d['t'], d['n'])
        if 'bindings' in d:
            base = fr.env[d['id']]
            for i, b in enumerate(d['bindings']):
                if b.get('field'):
                    x = self.ev(self.fix_binding(b['e'], d['id']))
                else:
                    x = self.models.tuple_elem(self, base, i, d['t'])
                if not isinstance(x, LV):
                    x = LV(self.new_loc(x, None, b['n']))
                v = self.load(x.p)
                if v.op == 'refv':
                    x = LV(v.args[0])
                fr.env[b['id']] = x.p

    def fix_binding(self, e, did):
        return e

    def s_if(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cv'):
            self.stmt(s['cv'])
        c = self.cond(s['c'])
        if not self.alive:
            return

        def f1():
            self.stmt(s['a'])

        def f2():
            if s.get('b'):
                self.stmt(s['b'])
        self.branch(c, f1, f2)

    def s_ret(self, s):
        fr = self.frames[-1]
        v = UNIT
        if s.get('e') is not None:
            x = self.ev(s['e'])
            if not self.alive:
                return
            if fr.retref:
                x = self.materialise(x)
                v = x.p
            else:
                v = self.convert(self.val(x), fr.fn['rt'])
        self.exit('ret', v)

    def s_break(self, s):
        self.exit('break', UNIT)

    def s_cont(self, s):
        self.exit('cont', UNIT)

    def s_switch(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        v = self.num(s['e'])
        # split into labelled positions
        body = s['b']
        labels = []     # (value or None, position)
        stmts = []
        for x in body:
            if x['k'] == 'case':
                labels.append((num(int(x['cv'])) if 'cv' in x else None, len(stmts), False))
            elif x['k'] == 'default':
                labels.append((None, len(stmts), True))
            else:
                stmts.append(x)
        conds = []
        for c, pos, dflt in labels:
            if not dflt:
                conds.append((eqn(v, c), pos))
        dpos = [pos for c, pos, dflt in labels if dflt]
        ex0 = self.exits
        nb = len(self.bounds)
        self.exits = []

        def run(i):
            if i < len(conds):
                # group equal positions
                c, pos = conds[i]
                j = i + 1
                while j < len(conds) and conds[j][1] == pos:
                    c = or_(c, conds[j][0])
                    j += 1
                if dpos and dpos[0] == pos:
                    pass
                self.branch(c, lambda: self.seq_stmts(stmts, pos), lambda: run(j))
            elif dpos:
                self.seq_stmts(stmts, dpos[0])
        run(0)
        e, alive, st = self.exits, self.alive, self.store
        self.exits = ex0
        self.lift(nb, ex0)
        got, others = self.outcome(e, alive, st, ('break',))
        self.exits += others
        if got is None:
            self.alive = False
            return
        self.alive = True
        self.store = got[1]

    def seq_stmts(self, stmts, pos):
        for x in stmts[pos:]:
            if not self.alive:
                return
            self.stmt(x)

    def s_try(self, s):
        ex0 = self.exits
        nb = len(self.bounds)
        self.exits = []
        self.stmt(s['b'])
        e, alive, st = self.exits, self.alive, self.store
        self.exits = []
        # order matters: process exits in sequence, handled ones become continuations
        items = []
        for (c, k, v, sto) in e:
            if k != 'throw':
                items.append((c, k, v, sto))
                continue
            h = self.match_handler(s['h'], v)
            if h is None:
                items.append((c, k, v, sto))
                continue
            # run the handler from that store
            self.store, self.alive, self.exits = dict(sto), True, []
            if 'var' in h:
                self.frames[-1].env[h['var']] = self.new_loc(v, None, 'exc')
            self.pc.append(c)
            self.stmt(h['b'])
            self.pc.pop()
            for (c2, k2, v2, s2) in self.exits:
                if k2 == 'throw' and v2.op == 'exc' and v2.args[0] == 'rethrow':
                    v2 = v
                items.append((and_(c, c2), k2, v2, s2))
            if self.alive:
                items.append((c, '#caught', UNIT, self.store))
        self.exits = ex0
        self.lift(nb, ex0)
        got, others = self.outcome(items, alive, st, ('#caught',))
        self.exits += others
        if got is None:
            self.alive = False
            return
        self.alive = True
        self.store = got[1]

    EXC_BASE = {
        'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
        'std::domain_error': 'std::logic_error', 'std::length_error': 'std::logic_error',
        'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
        'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
    }

    def match_handler(self, hs, v):
        ty = v.args[0] if v.op == 'exc' else None
        names = set()
        while ty:
            names.add(ty)
            nxt = self.EXC_BASE.get(ty)
            if nxt is None:
                r = self.prog.records.get('~' + ty)
                if r and r.get('bases'):
                    nxt = self.prog.name(r['bases'][0])
            ty = nxt
        for h in hs:
            if 't' not in h:
                return h
            if self.prog.name(h['t']) in names:
                return h
        return None

    # -------------------------------------------------------------- loops
    def s_for(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        import loops

        def cond():
            if s.get('cv'):
                self.stmt(s['cv'])
            if s.get('c') is None:
                return TRUE
            return self.cond(s['c'])

        def inc():
            if s.get('inc') is not None:
                self.ev(s['inc'])
        loops.run(self, cond, lambda k: self.stmt(s['b']), inc, None, s)

    def s_do(self, s):
        import loops
        # first iteration, then a while loop
        ex0 = self.exits
        nb = len(self.bounds)
        self.exits = []
        self.stmt(s['b'])
        e, alive, st = self.exits, self.alive, self.store
        self.exits = ex0
        self.lift(nb, ex0)
        got, others = self.outcome(e, alive, st, ('cont',))
        brk = [o for o in others if o[1] == 'break']
        if brk:
            raise Unsupported('break in do loop')
        self.exits += others
        if got is None:
            self.alive = False
            return
        self.alive, self.store = True, got[1]
        loops.run(self, lambda: self.cond(s['c']), lambda k: self.stmt(s['b']), lambda: None, None, s)

    def s_rfor(self, s):
        import loops
        if s.get('init'):
            self.stmt(s['init'])
        x = self.ev(s['range'])
        self.models.range_for(self, s, x)


FNREFS = {}


def has_ptr(v):
    if v.op in ('ptr', 'refv', 'iter', 'struct', 'list', 'opt', 'upd'):
        return True
    if v.op == 'ite':
        return has_ptr(v.args[1]) or has_ptr(v.args[2])
    return False


def seq_write(s, i, v):
    if s.op == 'list':
        c = const(i)
        if c is not None:
            c = int(c)
            if 0 <= c < len(s.args):
                return mk_raw('list', s.args[:c] + (v,) + s.args[c + 1:])
            return s
    return seq(length(s), lambda j: ite(eqn(j, i), v, sel(s, j)))


def seq_append(s, v):
    if s.op == 'list':
        return mk_raw('list', s.args + (v,))
    n = length(s)
    return seq(add(n, ONE), lambda j: ite(eqn(j, n), v, sel(s, j)))
