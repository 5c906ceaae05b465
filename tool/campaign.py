#!/usr/bin/env python3
"""Sensitivity of the checks: small changes to the analysed functions, and which obligation reports them.

Nothing is executed; every change is made in a throw-away copy of the sources.  Survivors are printed with
their line, to be judged by hand (many are equivalent).

  campaign.py [--files SUBSTRING] [--max N] [--seed N] [--jobs N] [--out FILE]
"""
import argparse
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(50000)
import run as R   # noqa: E402

SWAP = [
    (r'(?<![<>=!+\-*/&|])<=(?!=)', ['<']), (r'(?<![<>=!\-])>=(?!=)', ['>']),
    (r'(?<= )<(?= )', ['<=', '>']), (r'(?<= )>(?= )', ['>=', '<']),
    (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
    (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']), (r'(?<= )\*(?= )', ['/']), (r'(?<= )/(?= )', ['*']),
    (r'\+=', ['-=']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['2', '0']), (r'(?<![\w.])2(?![\w.])', ['3']),
    (r'(?<![\w.])3(?![\w.])', ['2']), (r'(?<![\w.])(\d+\.\d+)(?![\w.])', ['(\\1 + 0.5)']),
    (r'\.x\b', ['.y']), (r'\.y\b', ['.z']), (r'\.z\b', ['.x']), (r'\bsin\(', ['cos(']), (r'\bcos\(', ['sin(']),
    (r'\.transpose\(\)', ['']), (r'\.inverse\(\)', ['']), (r'\bstd::min\b', ['std::max']),
    (r'\bstd::max\b', ['std::min']), (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']),
    (r'(?<=[(,\s])!(?=\w)', ['']), (r'\breturn;', [';']), (r'\bpadding\b', ['(padding + 1)']),
    (r'^\s+(?!return|const |auto |using |throw|int |double |for |if |while |case |default|break|continue)\w.*;\s*$', [';']),
    (r'\(-(?=\w)', ['(']), (r' -(?=\w)', [' ']),
]


def functions(path):
    d = json.load(open(path))
    return [(f['q'], f['file'], f['line'], f['end']) for f in d['funs'] if f['file'].startswith(R.REPO + '/')]


def baseline(path, key, q):
    R.child(path, key, {'verbose': False, 'dump': 0}, q)


def mutants(text, b, e):
    rows = text.split('\n')
    for n in range(b, min(e, len(rows)) + 1):
        s = rows[n - 1]
        code = s.split('//')[0]
        if not code.strip() or code.strip().startswith(('#', 'assert', 'RCLCPP', '"')):
            continue
        for pat, reps in SWAP:
            for m in re.finditer(pat, code):
                for r in reps:
                    new = code[:m.start()] + m.expand(r) + code[m.end():]
                    if new != code:
                        yield n, new
        t = code.strip()
        if n > b and t.endswith(';') and not t.startswith(('return', 'const ', 'auto ', 'using', '}')) and \
                re.match(r'[\w.\->*()\[\], ]+(\(|=|\+=|\+\+)', t) and t.count('(') == t.count(')'):
            yield n, code.replace(t, ';')


def work(args):
    """one change: returns (file, line, new, verdict, by)"""
    k, f, n, new, todo, root = args
    d = tempfile.mkdtemp(prefix='mut-', dir=root)
    try:
        tree = os.path.join(d, 'repo')
        shutil.copytree(R.REPO, tree, ignore=shutil.ignore_patterns('_build', '.git', 'docs', 'rviz', '*.png'))
        p = os.path.join(tree, os.path.relpath(f, R.REPO))
        rows = open(p).read().split('\n')
        rows[n - 1] = new
        open(p, 'w').write('\n'.join(rows))
        R.REPO = tree
        seen = {}
        verdict = 'SURVIVED'
        for tu, key in todo:
            if tu not in seen:
                try:
                    seen[tu] = R.extract(tu, d)
                    if os.path.exists(seen[tu] + '.errors'):
                        return (f, n, new, 'invalid', '')
                except R.Broken:
                    return (f, n, new, 'invalid', '')
            q = mp.Queue()
            c = mp.Process(target=R.child, args=(seen[tu], key, {'verbose': False, 'dump': 0}, q))
            c.start()
            try:
                r = q.get(timeout=150)
            except Exception:
                r = {'status': 'timeout'}
            c.kill()
            if r['status'] == 'fail':
                return (f, n, new, 'caught', '%s.%s' % key)
            if r['status'] != 'ok':
                verdict = 'NOANSWER ' + r['status'] + ' %s.%s' % key + ' ' + r.get('detail', '')[-200:].replace('\n', ' ')
        return (f, n, new, verdict, '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def slave(inq, outq):
    while True:
        a = inq.get()
        if a is None:
            return
        q = mp.Queue()
        p = mp.Process(target=lambda: q.put(work(a)))
        p.start()
        try:
            r = q.get(timeout=600)
        except Exception:
            r = (a[1], a[2], a[3], 'NOANSWER slow', '')
        p.kill()
        outq.put(r)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--files', default='')
    ap.add_argument('--max', type=int, default=100)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--out', default='/tmp/campaign.txt')
    a = ap.parse_args()
    root = tempfile.mkdtemp(prefix='campaign-')
    try:
        R.extractor()
        tus = sorted(f[:-4] for f in os.listdir(os.path.join(HERE, 'spec')) if f.endswith('.cpp'))
        visit = {}
        ends = {}
        cache = '/tmp/campaign-base.json'
        if os.path.exists(cache):
            visit, ends = json.load(open(cache))
        else:
            jobs = []
            for tu in tus:
                path = R.extract(tu, root)
                for q, f, b, e in functions(path):
                    ends['%s:%d' % (f, b)] = e
                text = open(os.path.join(HERE, 'spec', tu + '.cpp')).read()
                for pid in sorted(set(re.findall(r'^namespace ([A-Z]\d\d)\b', text, re.M))):
                    jobs += [(path, k, tu) for k in R.keys_in(path, pid)]
            res = R.run_all([(p, k) for p, k, _t in jobs], {'verbose': False, 'dump': 0}, a.jobs, 300)
            for (p, k, tu), r in zip(jobs, res):
                for fn in r.get('functions', []):
                    m = re.search(r'\((\S+):(\d+)\)$', fn)
                    if m:
                        visit.setdefault('%s/%s:%s' % (R.REPO, m.group(1), m.group(2)), []).append((tu, k))
            json.dump([visit, ends], open(cache, 'w'))
        todo = []
        for loc, obs in visit.items():
            f, b = loc.rsplit(':', 1)
            if a.files not in f or loc not in ends or not f.startswith(R.REPO + '/') or '/stubs/' in f:
                continue
            text = open(f).read()
            for n, new in mutants(text, int(b), ends[loc]):
                todo.append((f, n, new, tuple((t, tuple(k)) for t, k in obs)))
        merged = {}
        for f, n, new, obs in todo:
            x = merged.setdefault((f, n, new), [])
            x += [o for o in obs if o not in x]
        todo = sorted(merged.items())
        random.Random(a.seed).shuffle(todo)
        print('%d changes possible' % len(todo))
        todo = todo[:a.max]
        inq, outq = mp.Queue(), mp.Queue()
        ps = [mp.Process(target=slave, args=(inq, outq)) for _ in range(a.jobs)]
        for p in ps:
            p.start()
        for k, ((f, n, new), obs) in enumerate(todo):
            inq.put((k, f, n, new, obs, root))
        for _ in ps:
            inq.put(None)
        count = {}
        t0 = time.time()
        with open(a.out, 'a') as out:
            for _ in todo:
                f, n, new, v, by = outq.get()
                count[v.split()[0]] = count.get(v.split()[0], 0) + 1
                old = open(f).read().split('\n')[n - 1]
                if v not in ('invalid',):
                    out.write('%s %s\n  %s:%d\n  - %s\n  + %s\n' % (v, by, os.path.relpath(f, R.REPO), n, old.strip(), new.strip()))
                    out.flush()
        print(count, '%.0fs' % (time.time() - t0))
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    main()
