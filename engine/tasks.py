"""Scenarios as independent tasks, run in parallel."""
import multiprocessing, os, signal, sys, time, traceback
from scen import *
from lower import LRegs, LCodes
from serial import Serial
from effects import Effects
from logfn import LogFn
from twins import Twins
import build
from interp import TOTAL

PROGS = {}


class Timeout(Exception):
    pass


def on_alarm(sig, frm):
    raise Timeout()


def U_for(prog, kind, p, enc=True):
    U = All(prog, kind, p)
    U.fresh_sketch()
    if kind == 'pp' and enc:
        U.compute_enc()
    U.fix_extra()
    return U


def t_new(P, kind):
    U = All(P, kind, 4)
    All.check_new(P, kind, U.rec, U.stats)
    return U


def t_mismatch(P, kind, ps=None):
    U = All(P, kind, 4)
    All.check_mismatch(P, kind, U.rec, U.stats, ps)
    return U


def t_insert(P, kind, p, which='insert'):
    U = U_for(P, kind, p)
    U.do_insert(which)
    return U


def t_insert_dense(P, kind, p, which='insert'):
    U = U_for(P, kind, p, False)
    U.do_insert(which, True)
    return U


def t_merge(P, kind, p, which='merge2'):
    U = U_for(P, kind, p)
    U.do_merge(which)
    return U


def t_merge_one(P, kind, p):
    U = U_for(P, kind, p)
    U.do_merge('merge2', True)
    return U


def t_count_dense(P, kind, p):
    U = U_for(P, kind, p, False)
    U.count_dense()
    if U.extra and U.stable and (kind == 'pf' or p in (4, 12)):
        U.count_again()
    return U


def t_count_sparse(P, kind, p):
    U = U_for(P, kind, p)
    U.count_sparse()
    return U


def t_clone(P, kind, p):
    U = U_for(P, kind, p)
    U.do_clone()
    return U


def t_registers(P, kind, ps=None):
    U = LRegs(P, kind)
    U.do_registers(ps)
    return U


def t_update_work(P, kind, p):
    U = LRegs(P, kind)
    U.do_update_work(p)
    return U


def t_clone_regs(P, kind, ps=None):
    U = LRegs(P, kind)
    U.do_clone_regs(ps)
    return U


def t_list(P):
    U = LCodes(P, 'pp')
    U.do_list()
    return U


def t_serial(P, kind):
    U = Serial(P, kind, 4)
    U.do_serial()
    return U


def t_effects(P):
    U = Effects(P, 'pf', 4)
    U.do_effects()
    U.do_clone_parts()
    return U


def t_owned(P, kind):
    U = Effects(P, kind, 4)
    U.do_owned()
    return U


def t_log(P):
    U = LogFn(P)
    U.do_log()
    return U


def t_twins(P):
    U = Twins()
    U.do_twins()
    return U


def t_linked(P, feat):
    """the crates a program using this feature set is linked with"""
    U = Effects(P, 'pf', 4)
    ok = not feat.startswith('alloc') or 'std' not in P.crates
    U.rec.add(['C22'], '%s: the standard library is not required' % feat if feat.startswith('alloc') else '%s: links' % feat,
              'proved' if ok and P.crates else 'refuted' if P.crates else 'unknown', 'built with the features %s, the library links the crate std' % feat, 'crates: ' + ' '.join(P.crates))
    return U


TASKS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('t_') and callable(v)}
# properties that lose their support when a scenario cannot be analysed at all
LOSES = {
    'new': ['C11', 'C18'], 'mismatch': ['C10', 'C18'],
    'insert': ['C01', 'C05', 'C07', 'C08', 'C12', 'C18', 'C19', 'C26'],
    'insert_dense': ['C01', 'C12', 'C18'],
    'merge': ['C07', 'C08', 'C09', 'C10', 'C18', 'C19'],
    'merge_one': ['C05', 'C08', 'C09', 'C18'],
    'count_dense': ['C13', 'C14', 'C15', 'C16', 'C17', 'C18'],
    'count_sparse': ['C07', 'C08', 'C13', 'C15', 'C17', 'C18', 'C19'],
    'clone': ['C18', 'C21'],
    'registers': ['C02', 'C03', 'C04', 'C18', 'C19'],
    'clone_regs': ['C21'], 'update_work': ['C26'], 'linked': ['C22'], 'log': ['C23'], 'twins': ['C24'],
    'list': ['C06', 'C18', 'C19'],
    'serial': ['C20'], 'effects': ['C21'], 'owned': ['C21'],
}
# scenarios analysed against a contract (registers, list) depend on the property that
# establishes it: if the contract fails, so does what rests on it
RESTS_ON = {
    'C01': ['C02'], 'C07': ['C06'], 'C08': ['C02', 'C06'], 'C09': ['C02', 'C04', 'C06'],
    'C22': ['C23'], 'C14': ['C03', 'C04'], 'C15': ['C03', 'C04', 'C06'],
}


def run_task(t):
    """t = (feature set, task name, args, seconds)"""
    feat, name, args, limit = t
    t0 = time.time()
    rec, stats = Rec(), None
    TOTAL[0] = 0
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    del CURRENT[:]
    SYMS.clear()
    SYMS.update(SYMS0)
    try:
        TASKS[name](PROGS.get(feat), *args)
    except Timeout:
        rec.add(LOSES.get(name, []), '%s%r' % (name, args), 'unknown', 'time limit of %d s' % limit)
    except Unknown as u:
        rec.add(LOSES.get(name, []), '%s%r' % (name, args), 'unknown', str(u))
    except RecursionError:
        rec.add(LOSES.get(name, []), '%s%r' % (name, args), 'unknown', 'recursion')
    except Infeasible:
        rec.add(LOSES.get(name, []), '%s%r' % (name, args), 'unknown', 'infeasible initial state')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rec.add(LOSES.get(name, []), '%s%r' % (name, args), 'unknown', 'analysis error %s: %s at %s:%d' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if CURRENT:
        stats = CURRENT[0].stats
        stats['fns'] = sorted(stats['fns'])
        rec += CURRENT[0].rec
        if name != 'new' and any(not getattr(u, 'stable', True) for u in CURRENT):
            for r in rec:
                if r['status'] == 'refuted':
                    r['status'], r['detail'] = 'unknown', r['detail'] + ' (if the unknown fields of the sketch allow it)'
        del CURRENT[:]
    # aggregate: identical proved obligations are counted
    agg = {}
    for r in rec:
        k = (tuple(sorted(set(r['props']))), r['ob'], r['status'], r['detail'] if r['status'] != 'proved' else '', r['site'] if r['status'] != 'proved' else '')
        agg[k] = agg.get(k, 0) + 1
    if 'C18' in LOSES.get(name, []) and TOTAL[0] and not any(k[2] != 'proved' and 'C18' in k[0] for k in agg):
        agg[(('C18',), '%s: bounds, overflow and division checks cannot fail' % name, 'proved', '', '')] = TOTAL[0]
    return dict(feat=feat, task=name, args=args, rec=agg, stats=stats, time=time.time() - t0)


SYMS0 = dict(SYMS)


def load(feats):
    for f in feats:
        if f not in PROGS:
            PROGS[f] = Prog(build.dump(f))


def run_all(tasks, procs=None, deadline=700):
    procs = procs or min(os.cpu_count() or 1, 16, len(tasks))
    # longest first
    w = {'merge': 3, 'count_sparse': 2, 'insert': 1}
    tasks = sorted(tasks, key=lambda t: (-w.get(t[1], 0), -t[2][1] if len(t[2]) > 1 and isinstance(t[2][1], int) else 0))
    if procs <= 1 or len(tasks) == 1:
        return [run_task(t) for t in tasks]
    out, done = [], set()
    end = time.time() + deadline
    with multiprocessing.get_context('fork').Pool(procs, maxtasksperchild=8) as pool:
        it = pool.imap_unordered(run_task, tasks)
        for _ in tasks:
            try:
                r = it.next(timeout=max(0.1, end - time.time()))
            except multiprocessing.TimeoutError:
                pool.terminate()
                break
            out.append(r)
            done.add((r['feat'], r['task'], repr(r['args'])))
    for feat, name, args, limit in tasks:
        if (feat, name, repr(args)) not in done:
            k = (tuple(sorted(LOSES.get(name, []))), '%s%r' % (name, args), 'unknown', 'not analysed within the time of the check', '')
            out.append(dict(feat=feat, task=name, args=args, rec={k: 1}, stats=None, time=0))
    return out
