#!/usr/bin/env python3
"""Driver: decide one property from the current source tree.

usage: run.py PROPERTY [--tier quick|thorough] [--only OBLIGATION] [--verbose]

For every obligation of the property the current sources are parsed (clang front end), the analysed
function and its reference semantics are summarised into normalised value-flow terms, and the two
summaries are compared.  Exit 0: every obligation discharged.  Exit 1 + VIOLATION line: one is not.
Anything else: the analysis itself could not be carried out.
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))

INCLUDES = [
    'rotationlib/include', 'kalman_filter/include', 'lib/include', 'extraction/include',
    'localization/include', 'ekf_localizer/include', 'mapping/include', 'path_generator/include',
    'imu_integration/include']


class Broken(Exception):
    """the analysis could not be carried out"""


def sha(*files):
    h = hashlib.sha256()
    for f in files:
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def extractor():
    """build the front end if this version of it is not there yet"""
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'extract-' + sha(src))
    if os.path.exists(out):
        return out
    flags = subprocess.check_output(['/usr/bin/llvm-config-18', '--cxxflags'], text=True).split()
    flags = [f for f in flags if not f.startswith('-std=')]
    tmp = out + '.%d.tmp' % os.getpid()
    cmd = ['/usr/bin/clang++-18', '-O1', '-std=c++17', '-fno-rtti'] + flags + [
        '-Wno-everything', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1',
        '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken('front end does not build:\n' + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def cxxflags():
    fl = ['-std=c++17', '-fsyntax-only', '-fno-access-control', '-Wno-everything', '-DVERIF_ANALYSIS',
          '-I' + os.path.join(VERIF, 'stubs')]
    fl += ['-I' + os.path.join(REPO, i) for i in INCLUDES]
    fl += ['-I' + REPO, '-I/usr/include/eigen3', '-I/usr/include/pcl-1.14']
    fl += ['-resource-dir', resource_dir()]
    return fl


_RD = []


def resource_dir():
    if not _RD:
        _RD.append(subprocess.check_output(['/usr/bin/clang++-18', '-print-resource-dir'],
                                           text=True).strip())
    return _RD[0]


ROOTS = ['/usr/include/pcl-1.14/pcl/point_cloud.h', '/usr/include/pcl-1.14/pcl/impl/point_types.hpp']


def chunks(text):
    """line ranges (1-based, inclusive) of the declarations inside the namespaces of a reference"""
    out = []
    n = len(text)
    i, line = 0, 1
    depth, start, home = 0, None, []
    head = ''
    while i < n:
        c = text[i]
        if c == '\n':
            line += 1
            i += 1
            head += ' '
            continue
        if text.startswith('//', i):
            i = text.find('\n', i)
            i = n if i < 0 else i
            continue
        if c == '#' and not text[text.rfind('\n', 0, i) + 1:i].strip():
            i = text.find('\n', i)
            i = n if i < 0 else i
            continue
        if c in '"\'':
            j = i + 1
            while j < n and text[j] != c:
                j += 2 if text[j] == '\\' else 1
            head += text[i:j + 1]
            i = j + 1
            start = start or line
            continue
        if not c.isspace() and start is None and c != '}':
            start, head = line, ''
        head += c
        if c == '{':
            if depth == 0 and re.match(r'\s*namespace\b', head):
                home.append(start)
                start, head = None, ''
            else:
                depth += 1
        elif c == '}':
            if depth == 0:
                if home:
                    home.pop()
                start, head = None, ''
            else:
                depth -= 1
                rest = text[i + 1:].lstrip()
                if depth == 0 and not rest.startswith((';', ',', ')', '(')) and '=' not in head.split('{')[0].split('(')[0]:
                    out.append((start, line))
                    start, head = None, ''
        elif c == ';' and depth == 0 and start is not None:
            out.append((start, line))
            start, head = None, ''
        i += 1
    return out


def without(text, cut):
    rows = text.split('\n')
    for b, e in cut:
        for i in range(b - 1, e):
            rows[i] = ''
    return '\n'.join(rows)


PYMODS = {}


def module(path, name):
    import pysub
    try:
        text, _ = pysub.translate(open(os.path.join(REPO, path)).read())
    except (OSError, SyntaxError, pysub.Outside) as e:
        raise Broken('%s cannot be translated: %s' % (path, e))
    return 'namespace %s {\n%s\n}  // namespace %s\n' % (name, text, name)


def extract(tu, tmp):
    """the program of a reference file; what does not compile against this tree is left out, and its
    obligations are reported as not statable"""
    src = os.path.join(VERIF, 'spec', tu + '.cpp')
    out = os.path.join(tmp, tu + '.json')
    ex = extractor()
    roots = ':'.join([REPO, os.path.join(VERIF, 'spec'), tmp, os.path.join(VERIF, 'stubs')] + ROOTS)
    text = open(src).read()
    first = None
    mods = {}
    for path, name in re.findall(r'^// python module: (\S+) as (\w+)$', text, re.M):
        mods[os.path.join(tmp, name + '.inc')] = module(path, name)
        PYMODS[name + '.inc'] = path
    for m, t in mods.items():
        open(m, 'w').write(t)
    for _round in range(6):
        cmd = [ex, out, roots, src, '--'] + cxxflags() + ['-ferror-limit=0', '-I' + tmp]
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=tmp)
        if r.returncode == 0 and os.path.exists(out):
            break
        err = '\n'.join(l for l in r.stderr.split('\n') if 'error' in l)[:3000] or r.stderr[-2000:]
        first = first or err
        lines = {int(m.group(1)) for m in re.finditer(
            r'^%s:(\d+):\d+: (?:(?:fatal )?error|note): ' % re.escape(src), r.stderr, re.M)}
        cut = [c for c in chunks(text) if any(c[0] <= l <= c[1] for l in lines)]
        if not cut:
            for m in mods:
                bad = {int(k) for k in re.findall(r'^%s:(\d+):\d+: ' % re.escape(m), r.stderr, re.M)}
                gone = [c for c in chunks(mods[m]) if any(c[0] <= l <= c[1] for l in bad)]
                if gone:
                    mods[m] = without(mods[m], gone)
                    open(m, 'w').write(mods[m])
                    cut = gone
                    break
            if cut:
                continue
            raise Broken('%s does not parse:\n%s' % (tu, first))
        text = without(text, cut)
        src = os.path.join(tmp, tu + '.cpp')
        open(src, 'w').write(text)
    else:
        raise Broken('%s does not parse:\n%s' % (tu, first))
    if first:
        open(out + '.errors', 'w').write(first)
    return out


def tus_for(pid):
    out = []
    d = os.path.join(VERIF, 'spec')
    for f in sorted(os.listdir(d)):
        if f.endswith('.cpp'):
            s = open(os.path.join(d, f)).read()
            if 'namespace %s\n' % pid in s or 'namespace %s ' % pid in s or 'namespace %s{' % pid in s:
                out.append(f[:-4])
    return out


# ---------------------------------------------------------------------------------- one obligation
def result_term(I, kind, v, store, inputs, globs):
    from terms import struct, UNIT, num
    st0 = I.store
    I.store = store
    fs = [('exit', num(KINDS.setdefault(kind, len(KINDS))))]
    if kind == 'abort':
        I.store = st0
        return struct('Result', fs + [('value', UNIT), ('state', UNIT)])
    fs.append(('value', I.snap(v) if kind == 'return' else UNIT))
    sf_ = []
    for n, loc in inputs:
        from interp import ptr
        sf_.append((n, I.snap(store[loc], (loc,))))
    for g in globs:
        sf_.append(('global ' + '/'.join(str(x) for x in g.args[1:]), I.snap(I.root_value(g), (g,))))
    fs.append(('state', struct('State', sf_)))
    I.store = st0
    return struct('Result', fs)


KINDS = {'return': 0}


def run_fn(prog, f, Interp, known=(), opaque=()):
    from terms import var, mk_raw, ge, ZERO
    from terms import UNIT
    import interp as IN
    I = Interp(prog)
    I.assumes = list(known)
    I.opaque_q = set(opaque)
    args, inputs = [], []
    for i, p in enumerate(f['ps']):
        ti = prog.strip_ref(p['t'])
        name = p['n'] or 'arg%d' % i
        v = I.reflect(var(name, 'o'), ti)
        if prog.ty(p['t'])['k'] == 'ref':
            loc = mk_raw('loc', ('in', str(i)))
            I.store[loc] = v
            I.loctype[loc] = ti
            inputs.append((name, loc))
            args.append(IN.LV(IN.ptr(loc)))
        else:
            t = prog.ty(ti)
            if t['k'] == 'b' and t.get('b') == 'int' and not t.get('sg') and v.op == 'poly':
                I.assumes.append(ge(v, ZERO))
            args.append(v)
    v = I.call_fn(f, None, args)
    v = I.val(v) if v is not None else UNIT
    return I, v, inputs


def finish(I, v, inputs, globs):
    from terms import ite
    items = []
    for (c, k, ev, st) in I.exits:
        kind = k
        if k == 'throw':
            kind = 'throw ' + (ev.args[0] if ev.op == 'exc' else '?')
        items.append((c, result_term(I, kind, ev, st, inputs, globs)))
    if I.alive:
        res = result_term(I, 'return', v, I.store, inputs, globs)
    elif items:
        res = items.pop()[1]
    else:
        raise Broken('no outcome')
    for c, r in reversed(items):
        res = ite(c, r, res)
    return res


def globs_of(*Is):
    out = []
    for I in Is:
        for loc in I.store:
            if loc.args[0] in ('g', 'deref') and loc not in out:
                out.append(loc)
    return out


def changed_globs(I1, I2):
    out = []
    for g in globs_of(I1, I2):
        stores = [s for I in (I1, I2) for s in [I.store] + [e[3] for e in I.exits]]
        out.append(g)
    return out


def obligation(path, key, opts, q=None):
    """runs in a forked child; returns a dict"""
    t0 = time.time()
    if os.environ.get('VERIF_HANG'):
        import faulthandler
        faulthandler.dump_traceback_later(int(os.environ['VERIF_HANG']))
    import terms as TM
    from terms import TRUE, show, ite, and_
    import interp as IN
    import decide as DC
    pid, name = key
    prog = IN.Prog(path)
    d = {'obligation': '%s.%s' % key, 'status': 'error', 'detail': ''}
    try:
        fns = {f['q']: f for f in prog.funs.values() if not f.get('lam')}
        law = fns.get('%s::law_%s' % key)
        impl = law or fns.get('%s::impl_%s' % key)
        spec = fns.get('%s::spec_%s' % key)
        ctx = DC.Ctx()
        known = oq = ()
        if law is None:
            if spec is None or impl is None:
                e = path + '.errors'
                raise Broken('cannot be stated for this tree: %s\n%s' % (
                    name, open(e).read() if os.path.exists(e) else ''))
            I2, v2, in2 = run_fn(prog, spec, IN.Interp)
            known, oq = I2.assumes, I2.opaque_q
        I1, v1, in1 = run_fn(prog, impl, IN.Interp, known, oq)
        visited = set(I1.visited)
        opaque = dict(I1.opaque_calls)
        if law is None:
            gl = changed_globs(I1, I2)
            for I, J in ((I1, I2), (I2, I1)):
                for g in gl:
                    if g not in I.store and g.args[0] == 'g':
                        I.store[g] = init_global(I, J, g)
                    for i, e in enumerate(I.exits):
                        if g not in e[3] and g.args[0] == 'g':
                            e[3][g] = init_global(I, J, g)
            r1, r2 = finish(I1, v1, in1, gl), finish(I2, v2, in2, gl)
            ass = I1.assumes
        else:
            I2 = None
            r1 = v1
            for (c, k, ev, st) in reversed(I1.exits):
                r1 = ite(c, TM.FALSE, r1)
            r2 = TRUE
            ass = I1.assumes
        for a in ass:
            ctx = ctx.add(a)
        d['assumptions'] = len(ass)
        if ctx.bad:
            raise Broken('contradictory assumptions')
        if opts.get('dump'):
            print('IMPL', show(r1, 0)[:opts['dump']])
            print('SPEC', show(r2, 0)[:opts['dump']])
            for a in ass:
                print('ASSUME', show(a)[:500])
        I1.name_ = '%s.%s' % key
        nb, open_, out = in_bounds(I1)
        text = lambda bs: ['%s: %s (%s:%s)' % b for b in bs]   # noqa: E731
        d['bounds'] = {'accesses': nb, 'not_shown': text(open_)}
        differs = None
        try:
            DC.DEADLINE[0] = 0 if os.environ.get('VERIF_REFUTE') else time.time() + opts.get('seconds', 100)
            ok = DC.decide_equal(r1, r2, ctx)
        except (DC.Budget, RecursionError):
            DC.DEADLINE[0] = None
            differs = missing_calls(r1, r2, I2)
            if differs is None:
                import refute
                at = refute.differ(r1, r2, ass, opts.get('seconds', 100))
                if at is None:
                    raise DC.Budget('comparison')
                differs = 'values differ already for ' + ', '.join('%s = %s' % x for x in at.items())
            ok = False
        finally:
            DC.DEADLINE[0] = None
        d['functions'] = sorted(['%s (%s:%d)' % (qn, rel(fl), ln) for qn, fl, ln in visited
                                 if fl.startswith(REPO + '/')] + translated(visited))
        d['opaque'] = opaque
        d['stats'] = dict(DC.STATS)
        d['status'] = 'ok' if ok else 'fail'
        lines = ['access outside its container: ' + x for x in text(out)]
        if out:
            d['status'] = 'fail'
            d['detail'] = '\n'.join(lines)
        if differs:
            lines.append(differs)
        if not ok:
            for fl in DC.FAIL[:6]:
                lines.append(describe(fl))
            d['detail'] = '\n'.join(lines)
    except IN.Unsupported as e:
        d['status'] = 'unsupported'
        d['detail'] = str(e)
        if opts.get('verbose'):
            d['detail'] += '\n' + traceback.format_exc()
    except DC.Budget as e:
        d['status'] = 'budget'
        d['detail'] = 'comparison budget exceeded'
    except Broken as e:
        d['detail'] = str(e)
    except Exception as e:
        d['detail'] = traceback.format_exc()[-3000:]
    d['wall_s'] = round(time.time() - t0, 2)
    return d


def missing_calls(r1, r2, I2):
    """calls the reference's outcome depends on and the implementation's outcome does not mention at all"""
    if I2 is None:
        return None
    names = [set(), set()]
    for i, r in enumerate((r1, r2)):
        seen, stack = set(), [r]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'app' and isinstance(x.args[0], str):
                names[i].add(x.args[0])
            stack += [a for m, _c in x.args for a, _e in m] if x.op == 'poly' else \
                [a for a in x.args if hasattr(a, 'op')]
    names = [{re.sub(r'^(mut:|out\d+:)', '', n) for n in ns} for ns in names]
    gone = sorted(n for n in names[1] - names[0] if any(n == q or n.endswith('::' + q) for q in I2.opaque_q))
    return 'the result does not depend on the call of ' + ', '.join(gone) if gone else None


def in_bounds(I):
    """(accesses, those not shown to be within their container, those shown to leave it)"""
    import loops as LP
    import terms as TM
    from terms import not_, num, sub, subst
    n, open_, out, seen = 0, [], [], {}
    for hyps, cond, (q, file, line), what, ks in I.bounds:
        if not (file or '').startswith(REPO + '/'):
            continue
        n += 1
        key = (hyps, cond)
        if key not in seen:
            ctx = LP.facts_of(list(I.assumes) + list(hyps))
            seen[key] = None
            if not LP.impossible(ctx, not_(cond)):
                seen[key] = 'open'
                # the first and last iterations of the enclosing loops
                insts = [{}]
                for k, last in ks[:3]:
                    insts += [s | {k: v} for s in insts
                              for v in (num(0), sub(last, num(1)), last)]
                for s in insts[:40]:
                    put = lambda t: subst_all(t, s)   # noqa: E731
                    hs = [put(h) for h in hyps]
                    if any(h is TM.FALSE for h in hs):
                        continue
                    c2 = LP.facts_of(list(I.assumes) + hs)
                    if c2.bad or any(LP.impossible(c2, h) for h in hs):
                        continue
                    if LP.impossible(c2, put(cond)):
                        seen[key] = 'out'
                        break
            if seen[key] and os.environ.get('VERIF_DEBUG'):
                from terms import show
                print('BOUND', seen[key], I.name_, what, q, line, show(cond)[:300],
                      'GIVEN', [show(h)[:200] for h in hyps], ks)
        e = (what, q, rel(file), line)
        if seen[key] == 'out' and e not in out:
            out.append(e)
        elif seen[key] and e not in open_:
            open_.append(e)
    return n, open_, out


def subst_all(t, s):
    from terms import subst
    for k in s:      # inner loops first: their last values may mention the outer index
        t = subst(t, {k: s[k]})
    return t


def init_global(I, J, g):
    """initial value of a global, as either side saw it first"""
    from terms import var
    for K in (I, J):
        if g in getattr(K, 'ginit', {}):
            return K.ginit[g]
    return J.reflect(var('g:' + str(g.args[1]), 'o'), J.loctype.get(g, I.loctype.get(g)))


def describe(fl):
    from terms import show
    try:
        why, a, b, trail = fl
        s = why
        s += '\n    found:    ' + show(a)[:600]
        s += '\n    expected: ' + show(b)[:600]
        for x, y in innermost(a, b)[:2]:
            if x is not a:
                s += '\n    where:    %s\n      not:    %s' % (show(x)[:300], show(y)[:300])
        if trail:
            s += '\n    when:     ' + ' and '.join(
                ('' if v else 'not ') + show(t)[:160] for t, v in trail[:12])
        return s
    except Exception:
        return repr(fl)[:500]


def innermost(a, b):
    """the smallest corresponding parts that differ"""
    out, stack = [], [(a, b)]
    while stack and len(out) < 4:
        x, y = stack.pop()
        if x is y:
            continue
        if x.op == 'poly' and y.op == 'poly':
            mx, my = dict(x.args), dict(y.args)
            px = [m for m in mx if mx[m] != my.get(m)]
            py = [m for m in my if my[m] != mx.get(m)]
            if len(px) == len(py) == 1 and len(px[0]) == len(py[0]):
                dx = [t for t, _e in px[0] if t not in [u for u, _f in py[0]]]
                dy = [t for t, _e in py[0] if t not in [u for u, _f in px[0]]]
                if len(dx) == len(dy) == 1:
                    stack.append((dx[0], dy[0]))
                    continue
            out.append((x, y))
        elif x.op != y.op or len(x.args) != len(y.args):
            out.append((x, y))
        else:
            sub = [(p, q) for p, q in zip(x.args, y.args) if p is not q]
            if all(hasattr(p, 'op') and hasattr(q, 'op') for p, q in sub):
                stack += reversed(sub)
            else:
                out.append((x, y))
    return out


def translated(visited):
    """the Python functions behind the analysed ones"""
    out = set()
    for qn, fl, _ln in visited:
        path = PYMODS.get(os.path.basename(fl or ''))
        if path is None:
            continue
        name = qn.split('::')[-1].rstrip('_')
        name = '__init__' if len(qn.split('::')) > 2 and name == qn.split('::')[-2] else name
        for i, row in enumerate(open(os.path.join(REPO, path))):
            if re.match(r'\s*def %s\(' % re.escape(name), row):
                out.add('%s (%s:%d)' % ('.'.join(qn.split('::')[1:]), path, i + 1))
    return sorted(out)


def rel(f):
    return os.path.relpath(f, REPO) if f.startswith(REPO + '/') else f


def child(path, key, opts, q):
    sys.setrecursionlimit(50000)
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def go():
        try:
            box.append(obligation(path, key, opts))
        except BaseException:
            box.append({'obligation': '%s.%s' % key, 'status': 'error',
                        'detail': traceback.format_exc()[-2000:]})
    t = threading.Thread(target=go)
    t.start()
    t.join()
    q.put(box[0])


def keys_in(path, pid):
    """the obligations the reference states for the property, whether or not they compile"""
    text = open(os.path.join(VERIF, 'spec', os.path.basename(path)[:-5] + '.cpp')).read()
    out = set()
    for m in re.finditer(r'namespace %s\s*\{(.*?)\n\}  // namespace %s\b' % (pid, pid), text, re.S):
        out |= {(pid, x) for x in re.findall(r'\b(?:impl|law)_(\w+)\s*\(', m.group(1))}
    return sorted(out)


def run_all(jobs, opts, nproc, timeout):
    """jobs: list of (path, key) -> results in order"""
    res = {}
    pending = list(jobs)
    running = []
    while pending or running:
        while pending and len(running) < nproc:
            path, key = pending.pop(0)
            q = mp.Queue()
            p = mp.Process(target=child, args=(path, key, opts, q))
            p.start()
            running.append((p, q, key, time.time()))
        time.sleep(0.02)
        nxt = []
        for p, q, key, t0 in running:
            r = None
            try:
                r = q.get_nowait()
            except Exception:
                pass
            if r is not None:
                res[key] = r
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                try:
                    res[key] = q.get(timeout=1)
                except Exception:
                    res[key] = {'obligation': '%s.%s' % key, 'status': 'error',
                                'detail': 'analysis process died (%s)' % p.exitcode}
            elif time.time() - t0 > timeout:
                p.kill()
                res[key] = {'obligation': '%s.%s' % key, 'status': 'timeout',
                            'detail': 'over %ds' % timeout}
            else:
                nxt.append((p, q, key, t0))
        running = nxt
    return [res[k] for _p, k in jobs]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--dump', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--timeout', type=int, default=400)
    a = ap.parse_args()
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        import checks
        code = checks.run(a, tmp, t0)
    except Broken as e:
        print('ANALYSIS-BROKEN %s: %s' % (a.pid, e))
        code = 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


if __name__ == '__main__':
    import run
    run.main()
