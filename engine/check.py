#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for /repo's current source.

exit 0: no violation found (undecided obligations, if any, are listed in the
evidence and printed as UNDECIDED); exit 1: VIOLATION line(s); exit 2: no answer."""
import argparse, json, os, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build

VERIF = build.VERIF
PF = list(range(4, 17))
PP = list(range(4, 19))
# feature sets other than the default one
OTHER = ('alloc', 'alloc-const', 'std-const')
# what must hold in every feature set
EVERYWHERE = ['C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C09', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21']


def tasks_mod():
    import tasks
    return tasks


def plan(prop, thorough):
    """[(feature set, task, args, seconds)] and the number of obligations that must at least exist"""
    T = []
    lim = 3000 if thorough else 500

    def add(name, *args, feat='std', limit=lim):
        T.append((feat, name, args, limit))
    # precisions for the scenarios whose code does not distinguish them except
    # through tables that other scenarios cover completely
    some = PP if thorough else [4, 5, 7, 9, 11, 12, 14, 18]
    few = PP if thorough else [4, 6, 11, 14, 18]
    rests = tasks_mod().RESTS_ON.get(prop, [])
    low = {prop, *rests}
    if prop in ('C11', 'C18', 'C19') or low & {'C02', 'C03', 'C04'}:
        for p in PF:
            add('registers', 'pf', [p])
        for p in PP:
            add('registers', 'pp', [p])
    if prop in ('C18', 'C19') or 'C06' in low:
        add('list')
    if prop in ('C02', 'C03', 'C04', 'C06'):
        return T
    if prop == 'C01':
        for p in PF:
            add('insert', 'pf', p)
        for p in PP:
            add('insert_dense', 'pp', p)
    elif prop == 'C05':
        for p in PP:
            add('insert', 'pp', p)
            add('merge_one', 'pp', p)
    elif prop in ('C07', 'C08', 'C19', 'C18'):
        for p in PP:
            add('insert', 'pp', p)
        for p in some:
            add('merge', 'pp', p)
        for p in few:
            add('count_sparse', 'pp', p)
        if prop in ('C18', 'C19'):
            add('new', 'pf')
            add('new', 'pp')
        if prop == 'C18':
            add('mismatch', 'pf')
            add('mismatch', 'pp', [4, 5, 11, 17, 18])
            for p in PF:
                add('insert', 'pf', p)
                add('merge', 'pf', p)
                add('count_dense', 'pf', p)
            for p in PP:
                add('count_dense', 'pp', p)
            for k, p in (('pf', 4), ('pf', 16), ('pp', 4), ('pp', 18)):
                add('clone', k, p)
    elif prop == 'C09':
        for p in PF:
            add('merge', 'pf', p)
        for p in PP:
            add('merge', 'pp', p)
    elif prop == 'C10':
        add('mismatch', 'pf')
        add('mismatch', 'pp')
        for p in PF:
            add('merge', 'pf', p)
        for p in few:
            add('merge', 'pp', p)
    elif prop == 'C11':
        add('new', 'pf')
        add('new', 'pp')
    elif prop == 'C12':
        for w in ('insert', 'insert_q', 'add', 'insert_any'):
            for p in PF:
                add('insert', 'pf', p, w)
            for p in (PP if thorough else [4, 10, 18]):
                add('insert', 'pp', p, w)
    elif prop == 'C13':
        for p in PF:
            add('count_dense', 'pf', p)
        for p in PP:
            add('count_dense', 'pp', p)
        for p in some:
            add('count_sparse', 'pp', p)
    elif prop in ('C14', 'C17'):
        for p in PF:
            add('count_dense', 'pf', p)
        if prop == 'C17':
            for p in PP:
                add('count_dense', 'pp', p)
            for p in few:
                add('count_sparse', 'pp', p)
    elif prop in ('C15', 'C16'):
        for p in PP:
            add('count_dense', 'pp', p)
        for p in (some if prop == 'C15' else ([4, 12] if not thorough else PP)):
            add('count_sparse', 'pp', p)
    elif prop == 'C26':
        for p in (10, 16):
            add('update_work', 'pf', p)
        for p in (10, 18):
            add('update_work', 'pp', p)
        for p in PF:
            add('insert', 'pf', p)
        for p in PP:
            add('insert', 'pp', p)
        for w in ('insert_q', 'add', 'insert_any'):
            add('insert', 'pf', 10, w)
            add('insert', 'pp', 10, w)
    elif prop == 'C20':
        add('serial', 'pf')
        add('serial', 'pp')
    elif prop == 'C21':
        add('effects')
        add('owned', 'pf')
        add('owned', 'pp')
        T.append(('alloc', 'effects', [], 600))
        T.append(('alloc', 'owned', ['pf'], 600))
        add('clone_regs', 'pf')
        add('clone_regs', 'pp')
        for k, ps in (('pf', PF), ('pp', PP)):
            for p in ps:
                add('clone', k, p)
    elif prop == 'C22':
        for f in OTHER:
            def on(name, *args):
                T.append((f, name, list(args), lim))
            on('linked', f)
            if f.startswith('alloc'):
                on('log')
            on('new', 'pf')
            on('registers', 'pf', PF)
            on('clone_regs', 'pf', PF)
            on('serial', 'pf')
            for p in PF:
                on('count_dense', 'pf', p)
                on('insert', 'pf', p)
                on('merge', 'pf', p)
            if not f.startswith('alloc'):
                on('new', 'pp')
                on('registers', 'pp', PP)
                for p in PP:
                    on('count_dense', 'pp', p)
                    on('insert_dense', 'pp', p)
                for p in (PP if thorough else [4, 18]):
                    on('count_sparse', 'pp', p)
                for p in (PP if thorough else [5, 16]):
                    on('insert', 'pp', p)
                for p in (PP if thorough else [18]):
                    on('merge', 'pp', p)
    elif prop == 'C23':
        for f in ('alloc', 'alloc-const'):
            T.append((f, 'log', [], lim))
    elif prop == 'C24':
        T.append(('', 'twins', [], lim))
    else:
        raise SystemExit('no check for ' + prop)
    return T


TRUST = [
    'rustc (nightly) as the producer of type-checked MIR, and the semantics this engine gives to MIR',
    'the summaries of std operations in engine/natives.py (Vec, slices, HashSet, Option, integer and float intrinsics)',
    'the reference formulas in engine/ctx.py and engine/count.py and the published tables in engine/golden.json',
]


def known():
    out = []
    f = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('{'):
                out.append(json.loads(l))
    return out


def first_error(log):
    ls = log.split('\n')
    for i, l in enumerate(ls):
        if l.startswith('error'):
            return ' '.join(x.strip() for x in ls[i:i + 3])[:300]
    return log[-300:]


def key_of(prop, r):
    """identifies a violation without line numbers"""
    import re
    return '%s | %s | %s' % (prop, r['ob'], re.sub(r':\d+:\d+', '', r['detail']))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--procs', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    import tasks
    T = plan(prop, a.tier == 'thorough')
    broken = {}
    for f in sorted({t[0] for t in T if t[0]}):
        try:
            tasks.load([f])
        except build.BuildError as e:
            broken[f] = str(e)
            print(e)
    if 'std' in broken and prop not in ('C22', 'C23', 'C24'):
        print('NO ANSWER: %s' % prop)
        sys.exit(2)
    lost = [t for t in T if t[0] in broken and prop != 'C22']
    T = [t for t in T if t[0] not in broken]
    res = tasks.run_all(T, a.procs, 700 if a.tier == 'quick' else 30000) if T else []
    for f, n, args, _ in lost:
        k = (tuple(tasks.LOSES.get(n, [])), '%s%r' % (n, tuple(args)), 'unknown', 'the feature set %s does not compile' % f, '')
        res.append(dict(feat=f, task=n, args=args, rec={k: 1}, stats=None, time=0))
    mine = {prop, *tasks.RESTS_ON.get(prop, [])}
    if prop == 'C22':
        mine |= set(EVERYWHERE)
        if 'std' in broken:
            print('NO ANSWER: the default feature set does not compile')
            sys.exit(2)
        for f in OTHER:
            err = broken.get(f, '')
            k = (('C22',), 'the feature set %s compiles' % f, 'refuted' if err else 'proved', first_error(err), 'cargo check, features ' + f)
            res.append(dict(feat=f, task='compile', args=[f], rec={k: 1}, stats=None, time=0))
        # what fails in the default feature set as well is not a difference between them
        again = {(r['task'], repr(r['args'])): (('std',) + (r['task'], r['args'], 600)) for r in res if any(k[2] == 'refuted' and 'C22' not in k[0] for k in r['rec'])}
        if again:
            tasks.load(['std'])
            base = {(r['task'], repr(r['args'])): {k[1] for k in r['rec'] if k[2] != 'proved'} for r in tasks.run_all(list(again.values()), a.procs, 300)}
            for r in res:
                b = base.get((r['task'], repr(r['args'])))
                if b:
                    r['rec'] = {k: n for k, n in r['rec'].items() if 'C22' in k[0] or k[2] != 'refuted' or k[1] not in b}
    obs = {}
    fns, st = set(), dict(states=0, runs=0, paths=0, steps=0, forks=0, loops=0, leaves=0, points=0)
    per = {}
    for r in res:
        s = r['stats'] or {}
        fns |= set(s.get('fns') or [])
        for k in st:
            st[k] += s.get(k, 0) or 0
        per.setdefault(r['task'], []).append(round(r['time'], 1))
        if a.v:
            print('  %-12s %-28s %6.1f s' % (r['task'], r['args'], r['time']))
        for (props, ob, status, detail, site), n in r['rec'].items():
            if not mine & set(props):
                continue
            k = (ob, status, detail, site)
            e = obs.setdefault(k, dict(ob=ob, status=status, detail=detail, site=site, n=0, where=[]))
            e['n'] += n
            e['where'].append('%s%s %s' % ('' if r['feat'] == 'std' else r['feat'] + ': ', r['task'], ' '.join(str(x) for x in r['args'])))
    proved = [o for o in obs.values() if o['status'] == 'proved']
    refuted = [o for o in obs.values() if o['status'] == 'refuted']
    unknown = [o for o in obs.values() if o['status'] == 'unknown']
    kf = known()
    viol = []
    for o in refuted:
        k = key_of(prop, o)
        if any(x.get('status') == 'known' and x.get('property') == prop and x.get('key') == k for x in kf):
            print('KNOWN-FINDING: property=%s %s' % (prop, o['detail']))
        else:
            viol.append(o)
    n_pr = sum(o['n'] for o in proved)
    n_all = sum(o['n'] for o in obs.values())
    rep = os.path.join(VERIF, 'evidence', prop + '.violation.json')
    if os.path.exists(rep):
        os.remove(rep)
    if viol:
        with open(rep, 'w') as f:
            json.dump(dict(property=prop, rerun='cd /verif && python3 engine/check.py %s --tier %s' % (prop, a.tier),
                           violations=[dict(rule=o['ob'], what=o['detail'], site=o['site'], scenario=o['where'][:5], key=key_of(prop, o)) for o in viol[:200]]), f, indent=1)
    rules = {}
    for o in obs.values():
        rules.setdefault(o['ob'], dict(proved=0, refuted=0, unknown=0))[o['status']] += o['n']
    cov = dict(
        obligations=n_all, discharged=n_pr,
        checker_cmd='python3 engine/check.py %s --tier %s' % (prop, a.tier),
        trusted_base=TRUST,
        explanation='Abstract interpretation of the resolved MIR of the library, one analysis per scenario and precision; '
                    'an obligation is one rule instance on one abstract path.',
        rules=rules,
        scenarios={k: len(v) for k, v in per.items()},
        functions_analysed=sorted(f for f in fns if 'hyperloglogplus' in f)[:400],
        abstract_paths=st['paths'], abstract_steps=st['steps'], loop_fixpoints=st['loops'], path_splits=st['forks'],
        formula_leaves=st['leaves'], formula_cells=st['points'],
        undecided=[dict(rule=o['ob'], why=o['detail'], site=o['site'], scenario=o['where'][:3]) for o in unknown[:50]],
        undecided_count=sum(o['n'] for o in unknown),
        repo_digest=build.repo_digest(),
    )
    wall = time.time() - t0
    with open(ev, 'w') as f:
        json.dump(dict(property=prop, tier=a.tier, seed=seed, level='proof', coverage=cov,
                       assumptions=TRUST, wall_s=round(wall, 2), violations=len(viol)), f, indent=1)
    for o in unknown[:10]:
        print('UNDECIDED %s: %s: %s' % (prop, o['ob'], o['detail'][:300]))
    if not viol and not n_pr:
        print('NO ANSWER: %s: nothing was analysed' % prop if not n_all else 'UNDECIDED: %s' % prop)
        if not n_all:
            sys.exit(2)
    for o in viol[:10]:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        print('  rule: %s\n  what: %s\n  where: %s (%s)' % (o['ob'], o['detail'], o['site'], '; '.join(o['where'][:3])))
    print('%s: %d obligations, %d proved, %d refuted, %d undecided; %d paths in %.1f s' % (
        prop, n_all, n_pr, sum(o['n'] for o in refuted), cov['undecided_count'], st['paths'], wall))
    sys.exit(1 if viol else 0)


if __name__ == '__main__':
    main()
