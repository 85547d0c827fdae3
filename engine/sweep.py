#!/usr/bin/env python3
"""sweep.py: development aid - the scenarios of all properties in one run, at a few precisions."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import check, tasks, build


def main():
    ps = {4, 11, 18, 16} if '--all' not in sys.argv else set(range(4, 19))
    T = []
    for l in open(os.path.join(build.VERIF, 'claimed.txt')):
        try:
            T += check.plan(l.strip(), False)
        except SystemExit:
            pass
    T = list(dict.fromkeys((f, n, tuple(tuple(x) if isinstance(x, list) else x for x in a), l) for f, n, a, l in T))
    out = []
    for f, n, a, l in T:
        if n == 'mismatch':
            a = (a[0], [4, 5, 16])
            if (f, n, a, 200) in out:
                continue
        elif n == 'registers':
            if a[1][0] not in ps:
                continue
        elif len(a) > 1 and isinstance(a[1], int) and (a[1] not in ps or a[0] == 'pp' and a[1] == 16 or a[0] == 'pf' and a[1] == 11):
            continue
        if f in ('std', '') or '--feats' in sys.argv or n in ('log',):
            out.append((f, n, a, 200))
    try:
        tasks.load(sorted({t[0] for t in out if t[0]}))
    except build.BuildError as e:
        print(str(e)[-1500:])
        sys.exit(2)
    t0 = time.time()
    res = tasks.run_all(out, None, 600)
    agg = {}
    for r in res:
        for (props, ob, st, det, site), n in r['rec'].items():
            if st != 'proved':
                k = (st, ob, det[:200])
                e = agg.setdefault(k, [0, set(), set()])
                e[0] += n
                e[1] |= set(props)
                e[2].add(r['task'])
    for st in ('refuted', 'unknown'):
        xs = [(k, v) for k, v in agg.items() if k[0] == st]
        pr = set().union(*[v[1] for k, v in xs]) if xs else set()
        print('%s %d %s' % (st, len(xs), ' '.join(sorted(pr))))
        for k, v in sorted(xs, key=lambda x: -x[1][0])[:int(os.environ.get('SW', '5'))]:
            print('   %d %s %s | %s | %s' % (v[0], ','.join(sorted(v[1])), ','.join(sorted(v[2])), k[1], k[2]))
    print('%.0f s; slowest %s' % (time.time() - t0, [(r['task'], r['args'], round(r['time'])) for r in sorted(res, key=lambda r: -r['time'])[:2]]))


if __name__ == '__main__':
    main()
