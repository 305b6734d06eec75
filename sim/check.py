#!/usr/bin/env python3
"""Decides one property by seeded search over simulated runs.

check.py --prop C01 [--tier quick|thorough]     exit 0 / exit 1 with a VIOLATION line
check.py --replay FILE                          re-executes a replay file
Every random choice derives from VERIF_SEED (default 1).
"""
import argparse, json, os, re, sys, time, random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build, engine, gen
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, '.build', 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.txt')

# (runs, wall cap in s)
QUICK = {}
QUICK_DEFAULT = (2500, 110)
THOROUGH_WALL = float(os.environ.get('SIM_THOROUGH_WALL', '1500'))
NOISE = ('the run finished in the harness',)


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def opname(spec, f):
    i = f.get('op', -1)
    if i >= 100000:
        i //= 100000
    ops = spec['ops']
    return ops[i]['k'] if 0 <= i < len(ops) else '?'


def bad(res):
    return res.get('fail')


class Reproducer:
    """Runs requests in one server (optionally fresh) within a time limit."""

    def __init__(self, pool, deadline):
        self.pool, self.deadline = pool, deadline
        self.srv = pool.fresh()

    def run(self, spec, dec=None, want=False):
        return self.srv.call({'spec': spec, 'decisions': dec, 'want_decisions': want})

    def fresh(self):
        self.srv.close()
        self.srv = self.pool.fresh()

    def left(self):
        return self.deadline - time.time()


def same_class(a, b):
    return bool(a) and bool(b) and a['kind'] == b['kind']


def minimise(rp, spec, fail):
    """-> (spec, decisions or None): fewer operations, fewer fault kinds, fewer decisions, same violation class"""
    spec = json.loads(json.dumps(spec))
    slow = fail['kind'] == 'stuck'
    if slow:
        return spec, None
    # operations
    i = 0
    ops = spec['ops']
    f = fail.get('op', -1)
    f = f // 100000 if f >= 100000 else f
    if 0 <= f < len(ops) - 1:
        t = dict(spec, ops=ops[:f + 1])
        if same_class(bad(rp.run(t)), fail):
            spec = t
    while i < len(spec['ops']) and len(spec['ops']) > 1 and rp.left() > 0:
        t = dict(spec, ops=spec['ops'][:i] + spec['ops'][i + 1:])
        if same_class(bad(rp.run(t)), fail):
            spec = t
        else:
            i += 1
    # fault kinds and settings
    for k in ('p_spur', 'p_eintr', 'p_latewake', 'p_never', 'p_stall', 'p_wakeorder', 'p_mainfirst', 'p_data', 'create_fail', 'p_npfail', 'p_mallocfail'):
        if spec['cfg'].get(k) and rp.left() > 0:
            c = dict(spec['cfg'])
            c.pop(k)
            t = dict(spec, cfg=c)
            if same_class(bad(rp.run(t)), fail):
                spec = t
    for k in list(spec.get('set', {})):
        if rp.left() > 0:
            s = dict(spec['set'])
            s.pop(k)
            t = dict(spec, set=s)
            if same_class(bad(rp.run(t)), fail):
                spec = t
    # the schedule as an explicit list of decisions
    r = rp.run(spec, None, True)
    dec = r.get('decisions')
    if not same_class(bad(r), fail) or dec is None or r['stat']['overflow']:
        return spec, None
    if not same_class(bad(rp.run(spec, dec)), fail):
        return spec, None
    if same_class(bad(rp.run(spec, [])), fail):
        return spec, []
    n = 2
    while len(dec) >= 2 and rp.left() > 0:
        size = max(1, len(dec) // n)
        hit = False
        for s in range(0, len(dec), size):
            if rp.left() <= 0:
                break
            t = dec[:s] + dec[s + size:]
            r = rp.run(spec, t, True)
            if same_class(bad(r), fail):
                t2 = r.get('decisions')
                # what actually took effect is at least as short
                dec = t2 if t2 is not None and len(t2) <= len(t) and same_class(bad(rp.run(spec, t2)), fail) else t
                n = max(n - 1, 2)
                hit = True
                break
        if not hit:
            if size == 1:
                break
            n = min(n * 2, len(dec))
    return spec, dec


def confirm(rp, spec, dec, fail):
    """the same input twice, each in a fresh process: identical failure?"""
    got = []
    for _ in range(2):
        rp.fresh()
        got.append(rp.run(spec, dec))
    a, b = got
    if same_class(bad(a), fail) and same_class(bad(b), fail) and engine.fingerprint(a) == engine.fingerprint(b):
        return a
    return None


def write_replay(prop, spec, dec, res, orig):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%d.json' % (prop, spec['seed']))
    s = res['stat']
    d = {'property': prop, 'seed': spec['seed'], 'violation': res['fail'], 'spec': spec, 'decisions': dec,
         'expect': {'hash': s['hash'], 'schedhash': s['schedhash'], 'steps': s['steps'], 'clock': s['clock']},
         'faults': dict((k, v) for k, v in zip(engine.FAULT_NAMES, s['faults']) if v), 'original_spec': orig,
         'how': 'python3 /verif/sim/check.py --replay %s' % path,
         'decision_format': '[kind, thread, index of its scheduling point, value]; kinds: 1 switch to thread, 2 stall, 3 wake order, 4 spurious wake-up, 5 thread creation fails, 6 workspace allocation fails, 7 array allocation fails, 8 preempted inside bulk data, 9 wait interrupted, 10 late/never scheduled after wake-up'}
    with open(path, 'w') as f:
        json.dump(d, f, indent=1)
    return path


def replay(path):
    d = json.load(open(path))
    pool = engine.Pool(0)
    srv = pool.fresh()
    r = srv.call({'spec': d['spec'], 'decisions': d['decisions']})
    f = bad(r)
    if f:
        s = r['stat']
        exact = all(s[k] == v for k, v in d['expect'].items()) and f['msg'] == d['violation']['msg']
        print('%s: %s (%s)' % (f['kind'], f['msg'], 'identical execution' if exact else 'different execution'))
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    if 'harness_error' in r:
        print(r['harness_error'])
        return 3
    print('the recorded violation does not occur')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    prop, tier = a.prop, a.tier
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    n, wall = QUICK.get(prop, QUICK_DEFAULT)
    if tier == 'thorough':
        n, wall = 10 ** 9, THOROUGH_WALL
    if a.runs:
        n = a.runs
    if a.wall:
        wall = a.wall
    print('%s %s VERIF_SEED=%d' % (prop, tier, seed))
    pool = engine.Pool()
    known = load_known(prop)
    tb = time.time()
    base = seed * 1000000
    agg = {'runs': 0, 'checks': 0, 'steps': 0, 'clock': 0, 'switches': 0, 'pauses': 0, 'harness': 0, 'exc': 0}
    faults, probes = [0] * len(engine.FAULT_NAMES), [0] * len(engine.PROBE_NAMES)
    fruns = [0] * len(engine.FAULT_NAMES)
    scheds, samples, opk, fails, herr, resample, knownhit = set(), [], {}, [], [], [], {}
    rs = random.Random(seed)
    stop = [False]

    def reqs():
        for i in range(n):
            if stop[0]:
                return
            yield {'spec': gen.gen(prop, base + i)}
    deadline = tb + wall
    for req, res in pool.map_stream(reqs(), deadline):
        s = res.get('stat')
        spec = req['spec']
        agg['runs'] += 1
        if s:
            for k in ('steps', 'clock', 'switches', 'pauses'):
                agg[k] += s[k]
            for i, v in enumerate(s['faults'][:len(faults)]):
                faults[i] += v
                fruns[i] += v > 0
            for i, v in enumerate(s['probes'][:len(probes)]):
                probes[i] += v
        if 'harness_error' in res:
            agg['harness'] += 1
            if len(herr) < 5:
                herr.append((spec['seed'], res['harness_error'][-400:]))
            continue
        agg['checks'] += res.get('checks', 0)
        agg['exc'] += res.get('exc', 0)
        for o in spec['ops']:
            opk[o['k']] = opk.get(o['k'], 0) + 1
        f = bad(res)
        if f:
            t = f['kind'] + ': ' + f['msg']
            for rx, desc in known:
                if rx.search(t):
                    knownhit[desc] = knownhit.get(desc, 0) + 1
                    break
            else:
                fails.append((spec, res))
                stop[0] = len(fails) >= 3
                deadline = 0
            continue
        if prop == 'C20':
            if res.get('checks'):
                scheds.add(json.dumps([spec['ops'], spec['cfg'].get('aff'), s['schedhash']]))
        elif s['switches'] and res.get('checks'):
            scheds.add(s['schedhash'])
        if len(samples) < 3 and s['switches'] > 50:
            samples.append({'seed': spec['seed'], 'spec': spec, 'scheduling_points': s['steps'], 'switches': s['switches'], 'schedule_hash': '%016x' % s['schedhash'],
                            'faults': dict((k, v) for k, v in zip(engine.FAULT_NAMES, s['faults']) if v)})
        if len(resample) < 24 and rs.random() < 0.02:
            resample.append((spec, engine.fingerprint(res)))
    explored = time.time() - tb
    sites = pool.sites()
    # determinism: the same runs again, elsewhere
    mism = 0
    redo = 0
    if resample and not fails:
        order = {s['seed']: fp for s, fp in resample}
        for req, res in pool.map_stream(iter([{'spec': s} for s, _ in resample])):
            redo += 1
            mism += engine.fingerprint(res) != order[req['spec']['seed']]
    pool.close()

    code, viol, irrepro = 0, 0, []
    for spec, res in fails:
        f = bad(res)
        print('seed %d: %s: %s' % (spec['seed'], f['kind'], f['msg']))
        rp = Reproducer(pool, time.time() + 75)
        again = rp.run(spec)
        if not same_class(bad(again), f):
            irrepro.append({'seed': spec['seed'], 'first': f, 'second': bad(again)})
            rp.srv.close()
            continue
        try:
            mspec, mdec = minimise(rp, spec, f)
        except Exception as e:
            print('minimisation stopped: %r' % e)
            mspec, mdec = spec, None
        r = confirm(rp, mspec, mdec, f)
        if r is None:
            mspec, mdec = spec, None
            r = confirm(rp, mspec, mdec, f)
        rp.srv.close()
        if r is None:
            irrepro.append({'seed': spec['seed'], 'first': f, 'second': 'differs between fresh processes'})
            continue
        path = write_replay(prop, mspec, mdec, r, spec)
        print('minimised to %d operations, %s decisions: %s: %s' % (len(mspec['ops']), 'no' if mdec is None else len(mdec), r['fail']['kind'], r['fail']['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        viol, code = 1, 1
        break
    if fails and not viol:
        print('ERROR: failures that do not reproduce: %s' % json.dumps(irrepro)[:2000])
        code = 3
    if not code and agg['harness'] > max(2, agg['runs'] // 50):
        print('ERROR: %d of %d runs failed inside the harness: %s' % (agg['harness'], agg['runs'], herr[:2]))
        code = 3
    if not code and mism:
        print('ERROR: %d of %d repeated runs differed' % (mism, redo))
        code = 3
    for rx, desc in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, desc))
    hours = max(explored, 1e-9) / 3600
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(scheds),
        'rule': RULE.get(prop) or 'One evaluation = one seeded simulated run (generated operations, settings, fault mix and schedule). Distinct by the hash of the complete sequence of context switches (from, to, code site); non-trivial when at least one context switch happened and at least one result was compared with its oracle.',
        'samples': samples or [{'seed': base}],
        'oracle_checks': agg['checks'],
        'operations_by_kind': opk,
        'runs_per_hour': int(agg['runs'] / hours), 'seeds_per_hour': int(agg['runs'] / hours),
        'scheduling_points': agg['steps'], 'simulated_time_s': round(agg['clock'] * 20e-9, 6),
        'simulated_time_unit': 'one scheduling point advances the simulated clock by 20 ns; stalls advance it by their length',
        'context_switches': agg['switches'],
        'faults_injected': dict(zip(engine.FAULT_NAMES, faults)),
        'runs_with_fault': dict(zip(engine.FAULT_NAMES, fruns)),
        'conditions_reached': dict(zip(engine.PROBE_NAMES, probes)),
        'distinct_switch_sites': sites,
        'declined_by_exception': agg['exc'],
        'determinism_reruns': redo, 'determinism_mismatches': mism,
        'harness_errors': agg['harness'], 'harness_error_examples': herr, 'irreproducible': irrepro,
        'known_findings_hit': knownhit,
        'real_code': ['all of src/atop and src/pnumpy (C++ and Python) built from the working tree with scheduling points inserted at memory accesses, atomics, pauses and system calls', 'NumPy and CPython, uninstrumented'],
        'stubbed': (['/proc/cpuinfo, /proc/stat, /sys/devices/system/cpu and sysconf as Python code sees them (cpu_count_linux)'] if prop == 'C20' else []) + ['thread scheduling, futex wait/wake, pthread creation and primitives', 'rdtsc, usleep, clock_gettime', 'CPU count and affinity', 'malloc/free of the extension (guarded, may fail on order)'],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL.get(prop, 'exploration'), 'coverage': cov,
          'assumptions': ['x86-64 total store order is approximated by sequentially consistent interleaving at instrumented accesses', 'NumPy itself is correct for the reference calls'],
          'wall_s': round(time.time() - t0, 1), 'violations': viol}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, prop + '.json.tmp%d' % os.getpid())
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + '.json'))
    print('%s: %d runs, %d checks, %d distinct schedules, %d switch sites, %.0f s (build %.0f s), exit %d' % (prop, agg['runs'], agg['checks'], len(scheds), sites, time.time() - t0, tb - t0, code))
    sys.exit(code)


LEVEL = {}
RULE = {'C20': 'One evaluation = one seeded simulated run (a generated host, what its sources do, clock history, operations and schedule). Distinct by the generated host, fault and clock choices together with the hash of the context switches; non-trivial when at least one answer was compared with its oracle.'}

if __name__ == '__main__':
    try:
        main()
    except build.BuildError as e:
        print('BUILD FAILED\n%s' % e)
        sys.exit(2)
