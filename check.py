#!/usr/bin/env python3-vt
"""check.py PROPERTY: decide one property of /repo's current tree (see DESIGN.md)."""
import sys
import os
import json
import time
import glob
import fnmatch
import shutil
import signal
import tempfile
import subprocess
import traceback
import resource
import multiprocessing as mp
import multiprocessing.connection as mpc

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'mvc'))
REPO = os.environ.get('MVC_REPO', '/repo')
PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
if '--thorough' in sys.argv:
    TIER = 'thorough'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
T0 = time.time()
LIMIT = 260 if TIER == 'quick' else 1500        # seconds of wall clock for one proof unit
MEMORY = 3 << 30                                # bytes of address space for one proof unit
TOTAL = 560 if TIER == 'quick' else 3000        # for all units of the property
CXX = ['g++', '-std=gnu++17', '-O1', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
       '-ftrivial-auto-var-init=pattern', '-I' + REPO + '/include']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=1000000000',
           UBSAN_OPTIONS='print_stacktrace=1')


class Timeout(Exception):
    pass


# ------------------------------------------------------------------ proof
PROG = None


def run_unit(name):
    import units
    import allunits
    import smt
    from vals import LOG, Unsupported, Refuted
    from mem import Fork
    LOG.reset()
    q0, t0, s0 = smt.STATS['queries'], time.time(), smt.STATS['time']
    err, status = '', None
    u = units.UNITS[name]

    def alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, LIMIT, 1)     # repeats: one may be swallowed in a destructor
    try:
        smt.CROSS[0] = TIER == 'thorough'
        u.f(PROG, *u.args)
    except Refuted as e:
        err = str(e)
    except Unsupported as e:
        err, status = 'not expressible: ' + str(e), 'undecided'
    except Timeout:
        err, status = 'time limit of %d s' % LIMIT, 'undecided'
    except Fork as e:
        err, status = 'undecided condition %s' % str(e)[:300], 'undecided'
    except RecursionError:
        err, status = 'recursion limit', 'undecided'
    except Exception:
        err, status = 'engine: ' + traceback.format_exc()[-1500:], 'undecided'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    failed = list(LOG.failed)
    total = sum(c[0] for c in LOG.counts.values())
    good = sum(c[1] for c in LOG.counts.values())
    import props
    only = props.KINDS.get(PROP)
    if only:
        # this property claims only these kinds; any other failed obligation leaves the unit undecided
        failed.sort(key=lambda f: f['kind'] not in only)
        hit = any(f['refuted'] and f['kind'] in only for f in failed)
        if not hit and (failed or err) and status is None:
            status = 'undecided'
        for f in failed:
            f['refuted'] = f['refuted'] and f['kind'] in only
    if any(f['refuted'] for f in failed):
        status = 'refuted'
    elif failed and status is None:
        status = 'undecided'
    elif status is None and err:
        status = 'refuted'
    elif status is None:
        status = 'proved' if total > 0 else 'undecided'
        if not total:
            err = 'no obligation was generated (vacuous)'
    return {'unit': name, 'function': u.fn, 'status': status, 'obligations': total, 'discharged': good,
            'by_kind': {k: c[1] for k, c in LOG.counts.items()}, 'failed': failed[:6], 'error': err[:2000],
            'queries': smt.STATS['queries'] - q0, 'solver_s': round(smt.STATS['time'] - s0, 3),
            'cvc5': smt.STATS['cvc5_checked'], 'cvc5_disagree': smt.STATS['cvc5_disagree'],
            'wall_s': round(time.time() - t0, 2)}


def run_all(names, total):
    """Every unit in a process of its own (8 at a time): one that dies or outgrows its memory leaves only itself undecided."""
    import units
    ctx = mp.get_context('fork')
    todo, live, done, end = list(names), {}, {}, time.time() + total

    def lost(n, why):
        done[n] = {'unit': n, 'function': units.UNITS[n].fn, 'status': 'undecided', 'obligations': 1, 'discharged': 0,
                   'by_kind': {}, 'failed': [], 'error': why, 'queries': 0, 'solver_s': 0, 'cvc5': 0, 'cvc5_disagree': 0, 'wall_s': 0}

    def child(n, w):
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        w.send(run_unit(n))
        w.close()
        os._exit(0)
    try:
        while todo or live:
            while todo and len(live) < 8:
                n = todo.pop(0)
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=child, args=(n, w))
                p.start()
                w.close()
                live[r] = (n, p)
            for r in mpc.wait(list(live), max(0.1, end - time.time())):
                n, p = live.pop(r)
                try:
                    done[n] = r.recv()
                except EOFError:
                    lost(n, 'the process proving this unit ended early')
                r.close()
                p.join()
            if time.time() >= end:
                for n in todo + [n for n, _ in live.values()]:
                    lost(n, 'total time limit')
                break
    finally:
        for n, p in live.values():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                p.kill()
    return [done[n] for n in names]


def prove(work):
    global PROG
    import front
    import units
    import allunits
    import props
    names = []
    for pat in props.PROPS[PROP]:
        for n in units.UNITS:
            if fnmatch.fnmatch(n, pat) and n not in names:
                names.append(n)
    try:
        PROG = front.load(work)
    except Exception as e:
        return [{'unit': 'front end', 'function': '', 'status': 'undecided', 'obligations': 1, 'discharged': 0,
                 'by_kind': {}, 'failed': [], 'error': str(e)[:2000], 'queries': 0, 'solver_s': 0, 'cvc5': 0, 'cvc5_disagree': 0, 'wall_s': 0}], ''
    names.sort(key=lambda n: -units.UNITS[n].cost)
    res = run_all(names, TOTAL)
    return res, PROG.sha


# ------------------------------------------------------------------ replay
def build(work, log):
    src = os.path.join(V, 'harness', PROP + '.cpp')
    cnt = ['-Dell_solve_cgpd_2D=cnt_2D', '-Dell_solve_cgpd_struct=cnt_struct'] if PROP in ('C12', 'C24') else []
    jobs = []
    objs = []
    for f in sorted(glob.glob(REPO + '/src/*.cpp')) + [src]:
        o = os.path.join(work, os.path.basename(f)[:-4] + '.o')
        objs.append(o)
        extra = cnt if not (f == src or os.path.basename(f) == 'ell.cpp') else []
        jobs.append((f, subprocess.Popen(CXX + extra + ['-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    ok = True
    for f, j in jobs:
        out = j.communicate()[0].decode(errors='replace')
        if j.returncode:
            ok = False
            log.append('compile %s: %s' % (f, out[:1500]))
    if not ok:
        return None
    exe = os.path.join(work, 'harness')
    wrap = ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=realloc'] if PROP == 'C19' else []
    r = subprocess.run(CXX + ['-o', exe] + objs + wrap, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        log.append('link: ' + r.stdout.decode(errors='replace')[:1500])
        return None
    return exe


def execute(exe, work, seed, tier, sizes=None, limit=120):
    d = tempfile.mkdtemp(dir=work)
    env = dict(ENV)
    if sizes:
        env['MVC_SIZES'] = sizes
    try:
        r = subprocess.run([exe, str(seed), tier], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
        out, rc = r.stdout.decode(errors='replace'), r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode(errors='replace'), None
    shutil.rmtree(d, ignore_errors=True)
    n = 0
    for l in out.splitlines():
        if l.startswith('OK cases='):
            n = int(l[9:])
    if rc == 0 and n:
        return {'verdict': 'held', 'cases': n, 'seed': seed, 'tier': tier}
    if rc is None:
        return {'verdict': 'timeout', 'cases': 0, 'seed': seed, 'tier': tier}
    return {'verdict': 'failed', 'cases': 0, 'seed': seed, 'tier': tier, 'sizes': sizes, 'rc': rc, 'output': out[:6000]}


def model_sizes(res):
    for r in res:
        for f in r['failed']:
            m = f.get('model')
            if m and 'nx' in m:
                try:
                    return '%d,%d,%d' % (int(m['nx']), int(m.get('ny', 3)), int(m.get('nz', 3)))
                except (ValueError, TypeError):
                    pass
    return None


def main():
    ev = os.path.join(V, 'evidence')
    os.makedirs(ev, exist_ok=True)
    known = []
    for l in open(os.path.join(V, 'known_findings.txt')):
        if l.startswith('known: property='):
            p, what = l[len('known: property='):].rstrip('\n').split(' ', 1)
            known.append({'property': p, 'what': what})
    work = tempfile.mkdtemp(prefix='mvc_')
    log = []
    try:
        import threading
        hb = {}

        def bg():
            hb['exe'] = build(work, log)
        th = threading.Thread(target=bg)
        th.start()
        th.join()
        runs = []
        exe = hb['exe']
        if exe:
            runs.append(execute(exe, work, SEED, TIER, limit=120 if TIER == 'quick' else 900))
        res, sha = prove(work)
        refuted = [r for r in res if r['status'] == 'refuted']
        undecided = [r for r in res if r['status'] == 'undecided']
        if exe and (refuted or undecided) and not any(r['verdict'] == 'failed' for r in runs):
            sizes = model_sizes(res)
            for k in range(4):
                runs.append(execute(exe, work, SEED + 100 + k, TIER if k < 2 else 'thorough', sizes if k % 2 == 0 else None, 60))
                if runs[-1]['verdict'] == 'failed':
                    break
        report(ev, known, res, sha, runs, refuted, undecided, exe, log)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(ev, known, res, sha, runs, refuted, undecided, exe, log):
    import props
    replay = os.path.join(ev, PROP + '.replay.txt')
    bad = [r for r in runs if r['verdict'] == 'failed']
    for k in known:
        if k['property'] == PROP:
            print('KNOWN-FINDING: property=%s %s' % (PROP, k['what']))
    viol = bool(bad or refuted)
    total = sum(r['obligations'] for r in res)
    good = sum(r['discharged'] for r in res)
    ncases = sum(r['cases'] for r in runs)
    proved = not undecided and not refuted
    cov = {'obligations': total, 'discharged': good,
           'checker_cmd': 'cd /verif && VERIF_TIER=%s VERIF_SEED=%d ./check.py %s' % (TIER, SEED, PROP),
           'trusted_base': props.TRUSTED,
           'functions_under_contract': sorted(set(r['function'] for r in res)),
           'units_proved': sum(r['status'] == 'proved' for r in res), 'units': len(res),
           'units_undecided': [{'unit': r['unit'], 'reason': r['error'][:300] or str(r['failed'])[:300]} for r in undecided],
           'units_refuted': [r['unit'] for r in refuted],
           'obligations_by_kind': {k: sum(r['by_kind'].get(k, 0) for r in res) for k in sorted(set(k for r in res for k in r['by_kind']))},
           'back_end': 'polynomial normal form + z3 for side conditions' + (', cvc5 cross-check' if TIER == 'thorough' else ''),
           'solver_queries': sum(r['queries'] for r in res), 'solver_s': round(sum(r['solver_s'] for r in res), 2),
           'cvc5_cross_checked': sum(r['cvc5'] for r in res), 'cvc5_disagreements': sum(r['cvc5_disagree'] for r in res),
           'source_sha256': sha,
           'replay_harness': {'built': bool(exe), 'runs': len(runs), 'cases': ncases, 'role': 'cross-check of the proof on concrete executions; bounded stand-in for units_undecided'},
           'units_detail': [{k: r[k] for k in ('unit', 'status', 'obligations', 'discharged', 'queries', 'solver_s', 'wall_s')} for r in res]}
    level = 'proof'
    if not proved:
        level = 'other'
        cov['explanation'] = ('%d of %d proof units were not discharged on this tree; for those the verdict is a bounded stand-in: %d concrete cases of the '
                              'replay harness, never counted as proved.' % (len(undecided) + len(refuted), len(res), ncases))
        cov['evaluations'] = ncases
    if log:
        cov['harness_build_log'] = [l[:600] for l in log]
    e = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
         'assumptions': props.ASSUME + props.EXTRA.get(PROP, []), 'wall_s': round(time.time() - T0, 2), 'violations': int(viol)}
    with open(os.path.join(ev, PROP + '.json'), 'w') as f:
        json.dump(e, f, indent=1)
        f.write('\n')
    print('%s: %d/%d obligations discharged in %d units (%d proved, %d refuted, %d undecided); harness: %s; %.1f s' % (
        PROP, good, total, len(res), cov['units_proved'], len(refuted), len(undecided),
        'not built' if not exe else '%d cases, %s' % (ncases, 'FAILED' if bad else 'held'), time.time() - T0))
    for r in undecided:
        print('  undecided: %s: %s' % (r['unit'], (r['error'] or str(r['failed'][:1]))[:300].replace('\n', ' ')))
    if not viol:
        sys.exit(0)
    with open(replay, 'w') as f:
        f.write('property %s violated by the tree with source sha256 %s\n\n' % (PROP, sha))
        for r in refuted:
            f.write('failed obligations of unit %s (function %s): %s\n' % (r['unit'], r['function'], r['error']))
            for q in r['failed']:
                f.write('  [%s] in %s near line %s: %s\n' % (q['kind'], q['where'], q['line'], q['desc']))
                if q.get('model'):
                    f.write('    counterexample: %s\n' % json.dumps({k: q['model'][k] for k in sorted(q['model'])[:60]}, default=str))
            f.write('\n')
        for r in bad:
            f.write('replayed on the real code (harness/%s.cpp, seed %d, tier %s, sizes %s), exit %s:\n%s\n' % (PROP, r['seed'], r['tier'], r.get('sizes'), r['rc'], r['output']))
        if not bad:
            f.write('no concrete failing input was found among %d replayed cases\n' % ncases)
            for l in log:
                f.write(l + '\n')
    for r in refuted[:5]:
        print('  failed obligation: %s: %s' % (r['unit'], (str(r['failed'][0]['desc']) if r['failed'] else r['error'])[:300]))
    for r in bad[:1]:
        print('  replay: ' + r['output'][:300].replace('\n', ' '))
    print('VIOLATION property=%s replay=%s%s' % (PROP, replay, '' if bad else ' no-failing-input-found'))
    sys.exit(1)


if __name__ == '__main__':
    main()
