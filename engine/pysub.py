"""Translation of a module written in a small Python subset to C++ (types are left to deduction), so that the
same front end and the same comparison decide properties of it.

What is outside the subset makes its function unavailable: obligations that need it cannot be stated for that
tree (no verdict), the others are unaffected.  `stubs/py.hpp` holds the meaning of the operations.
"""
import ast
import copy


class Outside(Exception):
    pass


BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
       ast.Div: 'truediv', ast.Pow: 'pow'}
CMP = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}
BUILTIN = {'len', 'sorted', 'sum', 'tuple', 'list', 'set', 'frozenset', 'min', 'max', 'abs', 'int', 'float', 'bool', 'any', 'all',
           'bytes', 'bytearray', 'reversed'}
CPP = {'int', 'float', 'double', 'char', 'bool', 'struct', 'class', 'auto', 'const', 'default', 'switch', 'case', 'new',
       'delete', 'this', 'template', 'operator', 'union', 'unsigned', 'signed', 'short', 'long', 'namespace', 'using', 'do',
       'void', 'register', 'typename', 'private', 'public', 'enum', 'export', 'extern', 'friend', 'goto', 'inline', 'static',
       'throw', 'try', 'catch', 'typedef', 'virtual', 'volatile', 'and', 'or', 'not', 'xor', 'array', 'std', 'py', 'main'}


def ident(n):
    return n + '_' if n in CPP else n


def cstr(s):
    out = ''
    for c in s:
        if c in '"\\':
            out += '\\' + c
        elif c == '\n':
            out += '\\n'
        elif ord(c) < 32 or ord(c) > 126:
            raise Outside('character in a string')
        else:
            out += c
    return 'std::string("%s")' % out


def stored(node):
    """names bound by assignment in the statements (not inside functions or comprehensions)"""
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)

    def go(s):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                tgt(t)
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            tgt(s.target)
        elif isinstance(s, ast.For):
            tgt(s.target)
        for f in ('body', 'orelse', 'finalbody'):
            for c in getattr(s, f, None) or []:
                go(c)
    for s in node:
        go(s)
    return out


def mutated(stmts):
    """names on which a method or an item assignment is used"""
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear'):
                out.add(n.func.value.id)
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        out.add(t.value.id)
    return out


class Fn:
    """one function body"""

    def __init__(self, mod, params, cls=None, selfname=None):
        self.mod = mod
        self.cls = cls
        self.selfname = selfname
        self.scopes = [{}]
        for p in params:
            self.scopes[0][p] = ident(p)
        self.n = 0
        self.probe = None

    def look(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return None

    def fresh(self, n):
        self.n += 1
        return '%s_%d' % (n, self.n)

    # ------------------------------------------------------------------ expressions
    def e(self, x):
        m = getattr(self, 'e_' + type(x).__name__, None)
        if m is None:
            raise Outside('expression ' + type(x).__name__)
        return m(x)

    def e_Constant(self, x):
        v = x.value
        if v is True:
            return 'true'
        if v is False:
            return 'false'
        if v is None:
            return 'py::None()'
        if isinstance(v, int):
            return str(v)
        if isinstance(v, float):
            return repr(v)
        if isinstance(v, str):
            return cstr(v)
        raise Outside('constant')

    def e_Name(self, x):
        r = self.look(x.id)
        if r:
            return r
        if x.id in self.mod.consts:
            return 'g_%s()' % x.id
        if x.id in self.mod.funs:
            return '[](auto &&... a) {return %s(std::forward<decltype(a)>(a)...);}' % ident(x.id)
        if x.id in ('int', 'float', 'bool', 'len'):
            return '[](const auto & a) {return py::%s_(a);}' % x.id
        r = self.mod.external(x.id)
        if r:
            return self.outside(r)
        raise Outside('name ' + x.id)

    def outside(self, d):
        q = 'py::' + '::'.join(ident(c) for c in d.split('.'))
        return 'py::type<%s>()' % q if d.split('.')[-1][:1].isupper() and not d.split('.')[-1].isupper() else q

    def dotted(self, x):
        if isinstance(x, ast.Name) and self.look(x.id) is None:
            return self.mod.external(x.id)
        if isinstance(x, ast.Attribute):
            b = self.dotted(x.value)
            return b and b + '.' + x.attr
        return None

    def e_Attribute(self, x):
        d = self.dotted(x)
        if d:
            return self.outside(d)
        if isinstance(x.value, ast.Name) and x.value.id == self.selfname:
            if self.cls and x.attr in self.cls.methods:
                return 'py::method("%s")' % x.attr
            return 'this->' + ident(x.attr)
        return '%s.%s' % (self.e(x.value), ident(x.attr))

    def e_BinOp(self, x):
        o = BIN.get(type(x.op))
        if not o:
            raise Outside('operator')
        return 'py::%s(%s, %s)' % (o, self.e(x.left), self.e(x.right))

    def e_UnaryOp(self, x):
        if isinstance(x.op, ast.Not):
            return '(!py::truth(%s))' % self.e(x.operand)
        if isinstance(x.op, ast.USub):
            return '(-%s)' % self.e(x.operand)
        raise Outside('operator')

    def boolean(self, x):
        """is the value of the expression a truth value"""
        return isinstance(x, ast.Compare) or isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) or \
            isinstance(x, ast.BoolOp) and all(self.boolean(v) for v in x.values) or \
            isinstance(x, ast.Constant) and isinstance(x.value, bool)

    def cond(self, x):
        if isinstance(x, ast.BoolOp):
            return '(' + (' && ' if isinstance(x.op, ast.And) else ' || ').join(self.cond(v) for v in x.values) + ')'
        if self.boolean(x):
            return self.e(x)
        return 'py::truth(%s)' % self.e(x)

    def e_BoolOp(self, x):
        # a chain of conditions; `a or b` as a choice between values is outside
        return self.cond(x)

    def e_Compare(self, x):
        xs = [x.left] + x.comparators
        out = []
        for a, o, b in zip(xs, x.ops, xs[1:]):
            if isinstance(o, (ast.In, ast.NotIn)):
                out.append('%spy::contains(%s, %s)' % ('' if isinstance(o, ast.In) else '!', self.e(b), self.e(a)))
            elif isinstance(o, (ast.Is, ast.IsNot)):
                raise Outside('identity')
            else:
                out.append('py::%s(%s, %s)' % (CMP[type(o)], self.e(a), self.e(b)))
        return out[0] if len(out) == 1 else '(' + ' && '.join(out) + ')'

    def e_IfExp(self, x):
        return '(%s ? %s : %s)' % (self.cond(x.test), self.e(x.body), self.e(x.orelse))

    def e_List(self, x):
        if any(isinstance(e, ast.Starred) for e in x.elts):
            out = None
            for e in x.elts:
                p = 'py::tolist(%s)' % self.e(e.value) if isinstance(e, ast.Starred) else 'py::listof(%s)' % self.e(e)
                out = p if out is None else 'py::add(%s, %s)' % (out, p)
            return out
        if not x.elts:
            return 'py::nothing()'
        return 'py::listof(%s)' % ', '.join(self.e(e) for e in x.elts)

    e_Tuple = e_List
    e_Set = e_List

    def e_Subscript(self, x):
        if isinstance(x.slice, ast.Slice):
            s = x.slice
            if s.step is not None:
                raise Outside('slice with a step')
            if any(isinstance(b, ast.UnaryOp) for b in (s.lower, s.upper)):
                raise Outside('slice from the end')
            v = self.e(x.value)
            lo = self.e(s.lower) if s.lower else '0'
            if s.upper is None:
                return 'py::slice_from(%s, %s)' % (v, lo)
            return 'py::slice(%s, %s, %s)' % (v, lo, self.e(s.upper))
        if isinstance(x.slice, ast.UnaryOp) and isinstance(x.slice.op, ast.USub):
            return 'py::last(%s, %s)' % (self.e(x.value), self.e(x.slice.operand))
        return 'py::at(%s, %s)' % (self.e(x.value), self.e(x.slice))

    def e_Lambda(self, x):
        ps = [a.arg for a in x.args.args]
        self.scopes.append({p: ident(p) for p in ps})
        b = self.e(x.body)
        self.scopes.pop()
        return '[&](%s) {return %s;}' % (', '.join('const auto & ' + ident(p) for p in ps), b)

    def comp(self, gens, elt):
        g = gens[0]
        if g.is_async:
            raise Outside('async')
        it = self.iterable(g.iter)
        name, pre = self.loopvar(g.target)
        conds = ' && '.join(self.cond(c) for c in g.ifs) or 'true'
        if len(gens) > 1:
            inner = self.comp(gens[1:], elt)
            r = 'py::flatmap(%s, [&](const auto & %s) {%s return %s;}, [&](const auto & %s) {%s return %s;})' % (
                it, name, pre, conds, name, pre, inner)
        else:
            r = 'py::comp(%s, [&](const auto & %s) {%s return %s;}, [&](const auto & %s) {%s return %s;})' % (
                it, name, pre, conds, name, pre, self.e(elt))
        self.scopes.pop()
        return r

    def loopvar(self, t):
        """opens a scope"""
        self.scopes.append({})
        if isinstance(t, ast.Name):
            n = self.fresh(ident(t.id))
            self.scopes[-1][t.id] = n
            return n, ''
        if isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts):
            n = self.fresh('item')
            pre = ''
            for i, e in enumerate(t.elts):
                m = self.fresh(ident(e.id))
                self.scopes[-1][e.id] = m
                pre += 'const auto & %s = py::item<%d>(%s);' % (m, i, n)
            return n, pre
        raise Outside('loop target')

    def iterable(self, x):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('range', 'enumerate', 'zip') and \
                self.look(x.func.id) is None and x.func.id not in self.mod.funs:
            return 'py::%s(%s)' % (x.func.id, ', '.join(self.e(a) for a in self.plain(x)))
        return self.e(x)

    def plain(self, x):
        if x.keywords or any(isinstance(a, ast.Starred) for a in x.args):
            raise Outside('arguments')
        return x.args

    def e_ListComp(self, x):
        return self.comp(x.generators, x.elt)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def bind(self, f, x, skip=0):
        """the arguments of a call of a module function, in the order of its parameters"""
        a = f.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
            raise Outside('parameters of ' + f.name)
        ps = [p.arg for p in a.args][skip:]
        val = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        out = {}
        for p, v in zip(ps, x.args):
            if isinstance(v, ast.Starred):
                raise Outside('star argument')
            out[p] = self.e(v)
        if len(x.args) > len(ps):
            raise Outside('arguments of ' + f.name)
        for k in x.keywords:
            if k.arg is None or k.arg in out or k.arg not in ps:
                raise Outside('arguments of ' + f.name)
            out[k.arg] = self.e(k.value)
        for p in ps:
            if p not in out:
                if p not in val:
                    raise Outside('arguments of ' + f.name)
                out[p] = Fn(self.mod, []).e(val[p])
        return ', '.join(out[p] for p in ps)

    def e_Call(self, x):
        f = x.func
        if isinstance(f, ast.Name) and self.look(f.id) is None:
            if f.id in self.mod.funs:
                return '%s(%s)' % (ident(f.id), self.bind(self.mod.funs[f.id], x))
            if f.id in self.mod.classes:
                if x.args or x.keywords:
                    raise Outside('constructor arguments')
                return ident(f.id) + '()'
            if f.id in ('range', 'enumerate', 'zip'):
                return self.iterable(x)
            if f.id == 'sorted' and len(x.args) == 1 and [k.arg for k in x.keywords] in ([], ['key']):
                return 'py::sorted(%s)' % ', '.join([self.e(x.args[0])] + [self.e(k.value) for k in x.keywords])
            if f.id in BUILTIN:
                return 'py::%s_(%s)' % (f.id, ', '.join(self.e(a) for a in self.plain(x)))
            if f.id == 'map' and len(x.args) == 2 and not x.keywords:
                return 'py::comp(%s, [&](const auto &) {return true;}, %s)' % (self.iterable(x.args[1]), self.e(x.args[0]))
            if f.id == 'filter' and len(x.args) == 2 and not x.keywords:
                return 'py::comp(%s, %s, [&](const auto & a) {return a;})' % (self.iterable(x.args[1]), self.e(x.args[0]))
        d = self.dotted(f)
        if d:
            if any(k.arg is None for k in x.keywords):
                raise Outside('keyword arguments')
            if x.keywords and x.args:
                raise Outside('arguments of ' + d)
            q = 'py::' + '::'.join(ident(c) for c in d.split('.'))
            if x.keywords and not d.split('.')[-1][:1].isupper():
                return '%s(%s)' % (q, ', '.join(self.e(k.value) for k in x.keywords))
            if x.keywords:
                # a message or settings object: its attributes are set by name
                sets = ''.join('o.%s = %s;' % (ident(k.arg), self.e(k.value)) for k in x.keywords)
                return '[&]() {%s o; %s return o;}()' % (q, sets)
            args = []
            for i, a in enumerate(x.args):
                if isinstance(a, ast.Starred):
                    if i != len(x.args) - 1:
                        raise Outside('star argument')
                    args.append('py::tolist(%s)' % self.e(a.value))
                else:
                    args.append(self.e(a))
            return '%s(%s)' % (q, ', '.join(args))
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == self.selfname and self.cls and f.attr in self.cls.methods:
                return 'this->%s(%s)' % (ident(f.attr), self.bind(self.cls.methods[f.attr], x, 1))
            args = [self.e(a) for a in self.plain(x)]
            if isinstance(f.value, ast.Name) and f.value.id == self.selfname:
                return 'this->%s(%s)' % (ident(f.attr), ', '.join(args))
            if f.attr in ('append', 'index', 'join', 'extend', 'count', 'copy', 'insert'):
                return 'py::%s_(%s)' % (f.attr, ', '.join([self.e(f.value)] + args))
            return '%s.%s(%s)' % (self.e(f.value), ident(f.attr), ', '.join(args))
        if isinstance(f, ast.Name):
            return '%s(%s)' % (self.look(f.id), ', '.join(self.e(a) for a in self.plain(x)))
        raise Outside('call')

    # ------------------------------------------------------------------ statements
    def block(self, stmts, top=False):
        out = []
        if not top:
            self.scopes.append({})
        for i, s in enumerate(stmts):
            self.rest = stmts[i + 1:]
            out.append(self.s(s, stmts[i + 1:]))
        if not top:
            self.scopes.pop()
        return '\n'.join(out)

    def s(self, x, rest):
        m = getattr(self, 's_' + type(x).__name__, None)
        if m is None:
            raise Outside('statement ' + type(x).__name__)
        return m(x, rest)

    def s_Pass(self, x, rest):
        return ';'

    def s_Expr(self, x, rest):
        v = x.value
        if isinstance(v, ast.Constant):
            return ';'
        if self.probe and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                isinstance(v.func.value, ast.Name) and v.func.value.id == self.probe:
            if v.func.attr == 'append':
                return 'return %s;' % self.e(v.args[0])
            if v.func.attr == 'extend':
                return 'return py::front(%s);' % self.iterable(v.args[0])
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == self.selfname:
            return ';'
        return self.e(v) + ';'

    def s_Return(self, x, rest):
        if x.value is None:
            return 'return;'
        return 'return %s;' % self.e(x.value)

    def s_Assert(self, x, rest):
        return 'if (!(%s)) {throw py::AssertionError();}' % self.cond(x.test)

    def s_Raise(self, x, rest):
        c = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
        if isinstance(c, ast.Name) and c.id in ('ValueError', 'RuntimeError', 'AssertionError', 'TypeError', 'KeyError', 'IndexError'):
            return 'throw py::%s();' % c.id
        raise Outside('raise')

    def s_FunctionDef(self, x, rest):
        a = x.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or a.defaults or x.decorator_list:
            raise Outside('parameters')
        n = self.fresh(ident(x.name))
        self.scopes[-1][x.name] = n
        self.scopes.append({p.arg: ident(p.arg) for p in a.args})
        body = self.block(x.body)
        self.scopes.pop()
        return 'auto %s = [&](%s) {\n%s\n};' % (n, ', '.join('const auto & ' + ident(p.arg) for p in a.args), body)

    def s_Break(self, x, rest):
        return 'break;'

    def s_Continue(self, x, rest):
        return 'continue;'

    def assign(self, t, v, rest, node=None):
        if isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.selfname:
                return 'this->%s = %s;' % (ident(t.attr), v)
            return '%s.%s = %s;' % (self.e(t.value), ident(t.attr), v)
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            return 'py::ref(%s, %s) = %s;' % (self.e(t.value), self.e(t.slice), v)
        if not isinstance(t, ast.Name):
            raise Outside('assignment')
        cur = self.look(t.id)
        here = self.scopes[-1]
        if cur is not None and t.id not in here and cur in self.outer():
            return '%s = %s;' % (cur, v)
        # a name of this block: a new value of it gets a name of its own unless a nested block assigns it again
        nested = t.id in [n for s in rest for f in ('body', 'orelse') for n in stored(getattr(s, f, None) or [])] or \
            any(isinstance(s, ast.For) and t.id in stored([s]) for s in rest)
        plain = isinstance(node, (ast.Name, ast.Attribute))
        later = t.id in mutated(rest)
        aug = any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == t.id
                  for s in rest for n in ast.walk(s))
        if nested and plain and later:
            raise Outside('alias')
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('list', 'tuple', 'set') and not node.args \
                or isinstance(node, (ast.List, ast.Tuple)) and not node.elts:
            return self.empty(t.id, rest)
        n = self.fresh(ident(t.id))
        here[t.id] = n
        if plain and not nested and not aug:
            return 'decltype(auto) %s = py::alias(%s);' % (n, v)
        return 'auto %s = py::value(%s);' % (n, v)

    def outer(self):
        return {v for s in self.scopes for v in s.values()}

    def empty(self, name, rest):
        """an empty list takes the element type of what is added to it"""
        n = self.fresh(ident(name))
        for i, s in enumerate(rest):
            if any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('append', 'extend') and
                   isinstance(c.func.value, ast.Name) and c.func.value.id == name for c in ast.walk(s)):
                break
        else:
            raise Outside('empty list')
        sub = copy.copy(self)
        sub.scopes = [dict(d) for d in self.scopes]
        sub.probe = name
        body = [sub.s(r, rest[j + 1:i + 1]) for j, r in enumerate(rest[:i + 1])]
        self.n = sub.n
        self.scopes[-1][name] = n
        return 'auto %s_probe = [&]() {\n%s\nthrow 0;};\nstd::vector<std::decay_t<decltype(%s_probe())>> %s;' % (
            n, '\n'.join(body), n, n)

    def s_Assign(self, x, rest):
        if len(x.targets) != 1:
            raise Outside('chained assignment')
        t = x.targets[0]
        if isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(x.value, (ast.Tuple, ast.List)) or len(x.value.elts) != len(t.elts):
                raise Outside('unpacking')
            tmp = [self.fresh('tmp') for _ in t.elts]
            out = ['auto %s = py::value(%s);' % (n, self.e(v)) for n, v in zip(tmp, x.value.elts)]
            out += [self.assign(a, n, rest) for a, n in zip(t.elts, tmp)]
            return '\n'.join(out)
        v = 'py::nothing()' if isinstance(x.value, (ast.List, ast.Tuple)) and not x.value.elts else self.e(x.value)
        return self.assign(t, v, rest, x.value)

    def s_AnnAssign(self, x, rest):
        if x.value is None:
            return ';'
        return self.assign(x.target, self.e(x.value), rest, x.value)

    def s_AugAssign(self, x, rest):
        o = BIN.get(type(x.op))
        if not o:
            raise Outside('operator')
        t = self.e(x.target)
        return '%s = py::%s(%s, %s);' % (t, o, t, self.e(x.value))

    def s_If(self, x, rest):
        hoist = ''
        if x.orelse:
            both = [n for n in stored(x.body) if n in stored(x.orelse) and self.look(n) is None]
            for n in dict.fromkeys(both):
                first = [s for s in x.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and
                         isinstance(s.targets[0], ast.Name) and s.targets[0].id == n]
                if not first:
                    if isinstance(x.orelse[0], ast.If) or isinstance(x.body[0], ast.If):
                        raise Outside('name first assigned in a nested block')
                    raise Outside('name first assigned in a nested block')
                m = self.fresh(ident(n))
                hoist += 'std::decay_t<decltype(py::value(%s))> %s{};\n' % (self.e(first[0].value), m)
                self.scopes[-1][n] = m
        c = self.cond(x.test)
        out = hoist + 'if (%s) {\n%s\n}' % (c, self.block(x.body))
        if x.orelse:
            out += ' else {\n%s\n}' % self.block(x.orelse)
        return out

    def s_While(self, x, rest):
        if x.orelse:
            raise Outside('while else')
        return 'while (%s) {\n%s\n}' % (self.cond(x.test), self.block(x.body))

    def s_For(self, x, rest):
        if x.orelse:
            raise Outside('for else')
        it = x.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and isinstance(x.target, ast.Name):
            a = [self.e(v) for v in self.plain(it)]
            lo, hi, st = ('0', a[0], '1') if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else '1')
            if st != '1':
                it = None
        if it is None:   # with a step: over the sequence of its values
            it = x.iter
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and isinstance(x.target, ast.Name):
            name, _ = self.loopvar(x.target)
            body = self.block(x.body)
            self.scopes.pop()
            end = self.fresh('end')
            return '{const int %s = %s; for (int %s = %s; %s < %s; %s += %s) {\n%s\n}}' % (
                end, hi, name, lo, name, end, name, st, body)
        v = self.iterable(it)
        name, pre = self.loopvar(x.target)
        body = self.block(x.body)
        self.scopes.pop()
        return 'for (const auto & %s : %s) {%s\n%s\n}' % (name, v, pre, body)


class Cls:
    def __init__(self, node):
        self.node = node
        self.methods = {f.name: f for f in node.body if isinstance(f, ast.FunctionDef) and f.name != '__init__'}
        self.init = next((f for f in node.body if isinstance(f, ast.FunctionDef) and f.name == '__init__'), None)


class Module:
    def __init__(self, text):
        self.tree = ast.parse(text)
        self.funs, self.consts, self.classes, self.imports, self.problems = {}, {}, {}, {}, {}
        self.order = []
        for s in self.tree.body:
            if isinstance(s, ast.FunctionDef):
                self.funs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(s)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                if s.targets[0].id in self.consts:
                    raise Outside('constant assigned twice')
                self.consts[s.targets[0].id] = s.value
                self.order.append(s.targets[0].id)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = s.module + '.' + a.name

    def external(self, n):
        m = self.imports.get(n)
        if m is None:
            return None
        return m.replace('numpy', 'np')

    def changed(self, f, skip=0, busy=()):
        """parameters whose object the function may change"""
        key = f.name
        if key in busy:
            return set()
        ps = [p.arg for p in f.args.args][skip:]
        root = {p: {p} for p in ps}

        def base(x):
            while isinstance(x, (ast.Attribute, ast.Subscript)):
                x = x.value
            return root.get(x.id, set()) if isinstance(x, ast.Name) else set()
        out = set()
        for _ in range(3):
            for n in ast.walk(f):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and isinstance(n.value, (ast.Name, ast.Attribute, ast.Subscript)):
                            root[t.id] = root.get(t.id, set()) | base(n.value)
                        elif isinstance(t, (ast.Attribute, ast.Subscript)):
                            out |= base(t)
                elif isinstance(n, ast.AugAssign):
                    if not isinstance(n.target, ast.Name) or isinstance(n.value, (ast.List, ast.ListComp)):
                        out |= base(n.target)
                elif isinstance(n, ast.For) and isinstance(n.target, ast.Name):
                    root[n.target.id] = root.get(n.target.id, set()) | base(n.iter)
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute):
                        out |= base(n.func.value)
                        if isinstance(n.func.value, ast.Name) and not base(n.func.value):
                            for c in self.classes.values():
                                m = c.methods.get(n.func.attr)
                                if m:
                                    out |= self.passed(n, m, 1, base, busy + (key,))
                    elif isinstance(n.func, ast.Name) and n.func.id in self.funs:
                        out |= self.passed(n, self.funs[n.func.id], 0, base, busy + (key,))
        return out & set(ps)

    def passed(self, call, f, skip, base, busy):
        ps = [p.arg for p in f.args.args][skip:]
        ch = self.changed(f, skip, busy)
        out = set()
        for p, a in list(zip(ps, call.args)) + [(k.arg, k.value) for k in call.keywords]:
            if p in ch:
                out |= base(a)
        return out

    def params(self, f, skip=0):
        ch = self.changed(f, skip)
        return ', '.join('T%d && %s' % (i, ident(p.arg)) if p.arg in ch else 'const T%d & %s' % (i, ident(p.arg))
                         for i, p in enumerate(f.args.args[skip:]))

    def uses(self, node):
        return [n.id for n in ast.walk(node) if isinstance(n, ast.Name) and n.id in self.funs]

    def emit(self):
        out, done, state = [], set(), {}

        def const(n):
            if n in done:
                return
            done.add(n)
            for m in ast.walk(self.consts[n]):
                if isinstance(m, ast.Name) and m.id in self.consts:
                    const(m.id)
            self.piece(out, 'constant ' + n, lambda: 'inline auto g_%s() {return %s;}' % (n, Fn(self, []).e(self.consts[n])))

        def fun(n):
            if n in state:
                return
            state[n] = 1
            f = self.funs[n]
            for m in self.uses(f):
                if m != n:
                    fun(m)
            self.piece(out, n, lambda: self.function(f))
        for n in self.order:
            const(n)
        later = [n for n in self.funs if any(isinstance(m, ast.Name) and m.id in self.classes for m in ast.walk(self.funs[n]))]
        for n in self.funs:
            if n not in later:
                fun(n)
        for n, c in self.classes.items():
            self.piece(out, n, lambda: self.cls(n, c))
        for n in later:
            fun(n)
        return '\n'.join(out) + '\n'

    def piece(self, out, name, make):
        try:
            out.append(make())
        except Outside as e:
            self.problems[name] = str(e)
            out.append('// %s: outside the subset: %s' % (name, e))

    def function(self, f):
        a = f.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or f.decorator_list:
            raise Outside('parameters')
        ps = [p.arg for p in a.args]
        body = Fn(self, ps).block(f.body, True)
        t = 'template<%s>\n' % ', '.join('class T%d' % i for i in range(len(ps))) if ps else 'inline '
        out = '%sauto %s(%s)\n{\n%s\n}' % (t, ident(f.name), self.params(f), body)
        if a.defaults and len(a.defaults) == len(ps):
            out += '\ninline auto %s() {return %s(%s);}' % (
                ident(f.name), ident(f.name), ', '.join(Fn(self, []).e(d) for d in a.defaults))
        return out

    def cls(self, name, c):
        bases = [self.external(b.id) if isinstance(b, ast.Name) else Fn(self, []).dotted(b) for b in c.node.bases]
        if bases != ['rclpy.node.Node']:
            raise Outside('base class')
        fields, ctor = [], ''
        if c.init:
            ps = [p.arg for p in c.init.args.args]
            me = ps[0]
            f = Fn(self, [], c, me)
            body = []
            rest = list(c.init.body)
            base = ''
            stmts = []
            for s in rest:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                        s.value.func.attr == '__init__':
                    args = [x for x in s.value.args if not isinstance(x, ast.Starred)]
                    if len(args) != 1:
                        raise Outside('base constructor')
                    base = f.e(args[0])
                    continue
                stmts.append(s)
            seen = set()
            for i, s in enumerate(stmts):
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and \
                        isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == me and s.targets[0].attr not in seen:
                    seen.add(s.targets[0].attr)
                    t = f.e(s.value).replace('this->', 'std::declval<py::rclpy::node::Node &>().')
                    fields.append('std::decay_t<decltype(py::value(%s))> %s;' % (t, ident(s.targets[0].attr)))
            body = f.block(stmts, True)
            ctor = '%s()\n: py::rclpy::node::Node(%s)\n{\n%s\n}' % (ident(name), base, body)
        ms = []
        for n, m in c.methods.items():
            try:
                a = m.args
                if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or m.decorator_list:
                    raise Outside('parameters')
                ps = [p.arg for p in a.args]
                body = Fn(self, ps[1:], c, ps[0]).block(m.body, True)
                t = 'template<%s>\n' % ', '.join('class T%d' % i for i in range(len(ps) - 1)) if len(ps) > 1 else ''
                ms.append('%sauto %s(%s)\n{\n%s\n}' % (
                    t, ident(n), self.params(m, 1), body))
            except Outside as e:
                self.problems[name + '.' + n] = str(e)
        return 'struct %s : py::rclpy::node::Node\n{\n%s\n%s\n%s\n};' % (
            ident(name), '\n'.join(fields), ctor, '\n'.join(ms))


def translate(text):
    m = Module(text)
    return m.emit(), m.problems


if __name__ == '__main__':
    import sys
    t, p = translate(open(sys.argv[1]).read())
    print(t)
    for k, v in p.items():
        print('//', k, v)
