"""Structural analyses over the type-checked program."""
import json
import os

REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')
MUTEXES = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex')


def locks(tu, cls, instance):
    """Lockset analysis of a class: every operation that can be called from outside touches the
    fields of the object only while it holds the mutex of the object, and does not take it twice."""
    def rule(paths, tmp):
        path = [p for p in paths if os.path.basename(p).startswith(tu)]
        if not path:
            return []
        prog = json.load(open(path[0]))
        a = Locks(prog, cls, instance)
        a.run()
        d = {'obligation': '%s.lockset' % cls, 'status': 'ok', 'detail': '', 'wall_s': 0, 'stats': {},
             'functions': sorted(a.seen), 'opaque': {}}
        if not a.entries:
            d['status'], d['detail'] = 'error', 'no operation of %s was found' % cls
        elif not a.mutex:
            d['status'], d['detail'] = 'fail', '%s has no mutex' % cls
        elif a.bad:
            d['status'] = 'fail'
            d['detail'] = 'rule: fields are touched only under the mutex, which is taken once\n' + \
                '\n'.join(sorted(set(a.bad)))
        return [d]
    return rule


class Locks:
    def __init__(self, prog, cls, instance):
        self.prog, self.types = prog, prog['types']
        self.funs = {}
        fs = prog['funs'].values() if isinstance(prog['funs'], dict) else prog['funs']
        for f in fs:
            self.funs[f['id']] = f
        self.cls = cls
        recs = prog['records'].values() if isinstance(prog['records'], dict) else prog['records']
        self.rec = [r for r in recs if r.get('s') == instance]
        self.mutex, self.fields = {}, set()
        for r in self.rec:
            for f in r['fields']:
                t = self.types[f['t']]
                n = t.get('name', '')
                if n in MUTEXES:
                    self.mutex[f['n']] = n
                elif not t.get('const'):
                    self.fields.add(f['n'])
        self.entries = [f for f in self.funs.values() if f.get('q', '').startswith(cls + '::') and
                        'body' in f and self.is_instance(f, instance) and not f.get('lam')]
        self.bad, self.seen, self.memo = [], set(), {}

    def is_instance(self, f, instance):
        c = f.get('cls')
        return c is not None and self.types[c].get('s', '') == instance or \
            (c is not None and 'Double' not in instance and self.types[c].get('s') is None)

    def run(self):
        pub = [f for f in self.entries if not f.get('hidden') and not f.get('ctor') and
               not f['n'].startswith('~') and not f.get('st') and not f.get('dflt')]
        for f in pub:
            self.method(f, frozenset(), (f['n'],))
        self.entries = pub

    def where(self, f, n):
        p = f['file']
        if p.startswith(REPO + '/'):
            p = p[len(REPO) + 1:]
        return '%s (%s:%s)' % (f['q'], p, n.get('ln', f['line']))

    def method(self, f, held, path):
        """held: the mutexes surely held; returns those held when the function returns"""
        key = (f['id'], held)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = held
        self.seen.add(self.where(f, f))
        st = State(held)
        rt = self.types[f['rt']] if 'rt' in f else {}
        self.cur = getattr(self, 'cur', [])
        self.cur.append((f, path, rt))
        self.walk(f.get('body'), st)
        self.cur.pop()
        self.memo[key] = frozenset(st.held)
        return self.memo[key]

    def note(self, n, what):
        f, path, _rt = self.cur[-1]
        self.bad.append('%s: %s [reached through %s]' % (self.where(f, n), what, ' -> '.join(path)))

    def mutex_of(self, n):
        """the mutex of this object an expression names"""
        if isinstance(n, dict):
            if n.get('k') == 'mem' and n.get('n') in self.mutex and self.on_this(n.get('b')):
                return n['n']
            g = self.funs.get(n.get('fn', {}).get('id')) if n.get('k') == 'mcall' else None
            if g is not None and g.get('cls') == self.cur[-1][0].get('cls') and \
                    self.tname(g['rt']) in GUARDS:
                return self.mutex_of(g.get('body'))       # a helper that hands out the guard
            for v in n.values():
                r = self.mutex_of(v)
                if r:
                    return r
        elif isinstance(n, list):
            for v in n:
                r = self.mutex_of(v)
                if r:
                    return r
        return None

    def on_this(self, b):
        while isinstance(b, dict) and b.get('k') in ('load', 'cast', 'upcast', 'temp'):
            b = b.get('e')
        return isinstance(b, dict) and b.get('k') == 'this'

    def tname(self, t):
        t = self.types[t]
        return t.get('name', '')

    def acquire(self, n, m, st):
        if m in st.held and self.mutex[m] != 'std::recursive_mutex':
            self.note(n, 'the mutex %s is taken while it is held' % m)
        st.held.add(m)

    def walk(self, n, st):
        if isinstance(n, list):
            for x in n:
                self.walk(x, st)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'block':
            scope = st.enter()
            for s in n.get('b', []):
                self.walk(s, st)
            st.leave(scope)
            return
        if k == 'decl':
            for d in n.get('d', []):
                t = d.get('t')
                if t is not None and self.tname(t) in GUARDS:
                    m = self.mutex_of(d.get('init'))
                    deferred = 'defer_lock' in json.dumps(d.get('init')) or \
                        'try_to_lock' in json.dumps(d.get('init'))
                    if m and not deferred:
                        self.acquire(n, m, st)
                        st.guard(d.get('id'), m)
                    elif m:
                        st.names[d.get('id')] = m
                    continue
                self.walk(d, st)
            return
        if k in ('if', 'cond'):
            self.walk(n.get('init'), st)
            self.walk(n.get('c'), st)
            outs = []
            for part in ('a', 'b', 'th', 'el', 't1', 't2', 'then', 'else'):
                if isinstance(n.get(part), (dict, list)):
                    s2 = st.copy()
                    self.walk(n[part], s2)
                    if not s2.done:
                        outs.append(s2)
            for x in [y for kk, y in n.items() if isinstance(y, (dict, list)) and kk not in (
                    'init', 'c', 'a', 'b', 'th', 'el', 't1', 't2', 'then', 'else')]:
                self.walk(x, st)
            for s2 in outs:
                st.held &= s2.held
            return
        if k in ('for', 'rfor', 'while', 'do', 'switch', 'try'):
            s2 = st.copy()
            for kk, x in n.items():
                if isinstance(x, (dict, list)):
                    self.walk(x, s2)
            st.held &= s2.held
            return
        if k == 'mem' and n.get('n') in self.fields and self.on_this(n.get('b')):
            if not st.held:
                self.note(n, 'the field %s is touched without the mutex' % n['n'])
        if k in ('mcall', 'call', 'ocall'):
            fn = n.get('fn', {})
            o = n.get('o', n.get('obj', n.get('b')))
            if fn.get('q', '').startswith(('std::unique_lock::', 'std::mutex::', 'std::recursive_mutex::')):
                m = self.mutex_of(n)
                v = None
                if not m:
                    v = self.var_in(n)
                    m = st.names.get(v)
                if m and fn['n'] == 'unlock':
                    st.held.discard(m)
                elif m and fn['n'] == 'lock':
                    self.acquire(n, m, st)
                    if v is not None:
                        st.guard(v, m)
                return
            for kk, x in n.items():
                if isinstance(x, (dict, list)) and kk != 'fn':
                    self.walk(x, st)
            g = self.funs.get(fn.get('id'))
            if g is not None and g.get('cls') == self.cur[-1][0].get('cls') and not g.get('st') and \
                    not g.get('lam') and self.on_this(o if o is not None else {'k': 'this'}):
                st.held = set(self.method(g, frozenset(st.held), self.cur[-1][1] + (g['n'],)))
            return
        if k in ('ret', 'throw'):
            st.done = True
        if k == 'ret':
            rt = self.cur[-1][2]
            if rt.get('k') in ('ref', 'ptr') and not self.cur[-1][0].get('hidden') and \
                    not self.cur[-1][0].get('lam') and self.field_in(n):
                self.note(n, 'a reference into the object leaves the operation')
        if k == 'lambda':
            for op in n.get('ops', []):
                g = self.funs.get(op['id'])
                if g is not None and 'body' in g:
                    self.walk(g['body'], st.copy())
            return
        for kk, x in n.items():
            if isinstance(x, (dict, list)) and kk != 'fn':
                self.walk(x, st)

    def field_in(self, n):
        if isinstance(n, dict):
            if n.get('k') == 'mem' and n.get('n') in self.fields:
                return True
            return any(self.field_in(v) for v in n.values())
        if isinstance(n, list):
            return any(self.field_in(v) for v in n)
        return False

    def var_in(self, n):
        if isinstance(n, dict):
            if n.get('k') == 'var':
                return n.get('id')
            for kk, v in n.items():
                if kk != 'fn':
                    r = self.var_in(v)
                    if r is not None:
                        return r
        elif isinstance(n, list):
            for v in n:
                r = self.var_in(v)
                if r is not None:
                    return r
        return None


class State:
    def __init__(self, held):
        self.held = set(held)
        self.names = {}
        self.done = False
        self.scopes = [[]]

    def copy(self):
        s = State(self.held)
        s.names = dict(self.names)
        s.scopes = [list(x) for x in self.scopes]
        return s

    def guard(self, var, m):
        self.names[var] = m
        self.scopes[-1].append(m)

    def enter(self):
        self.scopes.append([])
        return len(self.scopes)

    def leave(self, depth):
        for m in self.scopes.pop():
            self.held.discard(m)
