#!/usr/bin/env python3
"""tracemut.py PROPERTY [N]: records traces of the real code, corrupts one observed field of one event at a
time and reports, per kind of event and field, how many of the corruptions TLC rejects."""
import copy, glob, json, os, random, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'harness'))
import run as R


def leaves(x, path=()):
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
        yield path + ('len',), x
    else:
        yield path, x


def corrupt(rng, ev):
    ls = [p for p, x in leaves(ev) if len(p) > 0 and p != (0,) and not (p == ('len',))]
    if not ls:
        return None
    p = rng.choice(ls)
    x = ev
    for i in p[:-1]:
        x = x[i]
    if p[-1] == 'len':
        if x and rng.random() < 0.5:
            x.pop(rng.randrange(len(x)))
        elif x:
            x.append(copy.deepcopy(x[-1]))
        else:
            return None
    elif isinstance(x[p[-1]], bool):
        x[p[-1]] = not x[p[-1]]
    elif isinstance(x[p[-1]], int):
        x[p[-1]] += rng.choice([1, -1]) if x[p[-1]] > 0 else 1
    else:
        s = x[p[-1]]
        x[p[-1]] = s + 'x' if not s else s[:-1] + chr(ord(s[-1]) ^ 1) if rng.random() < 0.5 else s[1:]
    return p


def main(prop, n):
    run = R.Run(prop, 'quick', 1)
    rng = random.Random(7)
    try:
        if run.check.get('table'):
            run.export_table()
        for t in run.check['traces']:
            out = os.path.join(run.work, t['driver'])
            env = {'PYTHONPATH': os.path.join(R.HERE, 'drv'), 'VERIF_REPO': R.REPO}
            p = run.popen([R.PYPY, '-B', os.path.join(R.HERE, 'drv', t['driver'] + '.py'), prop, 'quick', '1', '0', '8', out],
                          out + '.log', env, cwd=run.work)
            p.wait()
            chunks = [json.loads(l) for f in sorted(glob.glob(out + '*.ndjson')) for l in open(f)]
            rows, what = [], []
            while len(rows) < n:
                c = copy.deepcopy(rng.choice(chunks))
                k = rng.randrange(len(c))
                kind = c[k][0]
                if c[k][0] == 'X' and t['driver'] == 'd_exec':
                    kind = 'X'
                path = corrupt(rng, c[k])
                if path is None:
                    continue
                rows.append(c[:k + 40])
                what.append((kind, path[0], path[1:], k, c[k]))
            f = out + '.mut'
            # one TLC run per group, errors of evaluation count as rejected
            res = {}

            def go(idx):
                g = '%s.%d' % (f, idx[0])
                with open(g, 'w') as o:
                    for i in idx:
                        o.write(json.dumps(rows[i]) + '\n')
                log = g + '.log'
                q = run.validate(g, t['spec'], log)
                q.wait()
                text = open(log, errors='replace').read()
                if q.returncode != 0:
                    if len(idx) == 1:
                        res[idx[0]] = True
                    else:
                        h = len(idx) // 2
                        go(idx[:h])
                        go(idx[h:])
                    return
                bad = set(b[0] for b in R.parse_bad(text))
                for j, i in enumerate(idx):
                    res[i] = (j + 1) in bad
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(go, [list(range(i, min(n, i + 40))) for i in range(0, n, 40)]))
            tab = {}
            for i, (kind, a, rest, k, ev) in enumerate(what):
                x = tab.setdefault((str(kind), a), [0, 0, []])
                x[0] += 1
                x[1] += res[i]
                if not res[i]:
                    x[2].append((rest, ev))
            print('%s: %d of %d corruptions rejected' % (prop, sum(res.values()), n))
            for key in sorted(tab, key=str):
                x = tab[key]
                print('   %-24s %3d/%3d %s' % ('%s[%s]' % key, x[1], x[0], '' if x[1] == x[0] else
                                              '  e.g. %s %s' % (x[2][0][0], json.dumps(x[2][0][1])[:150])))
    finally:
        run.cleanup()


main(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 400)
