#!/usr/bin/env python3
"""check.py PROPERTY            search (tier from VERIF_TIER, seed from VERIF_SEED)
check.py PROPERTY --replay FILE  replay a recorded violation

Exit 0: the property held in every simulated run; 1: violation (VIOLATION line); 2: the check itself failed."""
import glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
WORKERS = max(1, min(8, os.cpu_count() or 1))
# simulated runs of the quick tier; sized for about a minute on 8 cores
QUICK = {'C01': 12000, 'C02': 12000, 'C03': 12000, 'C04': 9000, 'C05': 9000, 'C06': 12000, 'C07': 14000, 'C08': 12000,
         'C09': 9000, 'C10': 3200, 'C11': 12000, 'C12': 10000, 'C13': 12000, 'C14': 6000, 'C15': 14000, 'C18': 10000}
QUICK_WALL = 260
THOROUGH_WALL = int(os.environ.get('VERIF_WALL', '1500'))
VIOL = 10

RULES = {
    'default': 'every run is a fresh plan drawn from (VERIF_SEED, property, index): environment, handles, frames, contents, quantisers, capacities, allocation faults, key frames, invalid tiles, client crashes. Non-trivial: at least one message was delivered and at least one fault or state-changing event (short result, failed call, key frame, difference tile, client crash, allocation fault, refused request) really happened in the run. Distinct: by the hash of the complete trace (return values, lengths and bytes of every call).',
    'C02': 'as the general rule (plans with capacities around every block boundary), plus plans that call the exposed component encoders on exactly sized memory; non-trivial: a delivered message plus a fault, or a component call.',
    'C07': 'plans in which allocations fail; non-trivial: at least one injected allocation failure fired and at least one message was delivered in the same run. Distinct by trace hash.',
    'C09': 'plans with 2 to 4 caller threads under the baton scheduler; non-trivial: at least two forced thread switches inside or between library calls and at least two calls. Distinct: by hash of the schedule (thread, step at each switch) and trace.',
    'C10': 'each plan is executed on ten simulated hosts (three of them 32-bit); non-trivial: at least two hosts and two calls (or a component call) were compared. Distinct by trace hash.',
    'C11': 'non-trivial: a client joined at a key frame and a crash, short result or failed call happened, with at least two delivered messages. Distinct by trace hash.',
    'C12': 'non-trivial: coefficients of at least one delivered tile were compared with the model. Distinct by trace hash.',
    'C13': 'non-trivial: alpha of at least one delivered tile was compared. Distinct by trace hash.',
    'C14': 'each plan is executed in two environments; non-trivial: at least two calls were compared. Distinct by trace hash.',
    'C18': 'non-trivial: a tile whose history the encoder knows was delivered, or an alpha plane was decoded. Distinct by trace hash.',
    'C15': 'non-trivial: at least one invalid request or creation was issued and at least one message delivered in the same run. Distinct by trace hash.',
}
FAULTS = ['capacity_faults', 'exact_boundary_calls', 'short_results', 'failed_calls', 'alloc_faults_fired', 'alloc_faults_fired_in_create', 'invalid_requests', 'invalid_creates', 'key_frames',
          'key_frames_failed', 'key_frames_cut_short', 'client_crashes', 'messages_lost_in_flight', 'stdout_failures', 'interfering_handle_ops', 'thread_switches', 'thread_switches_at_shared_data',
          'recycled_allocations', 'flags_of_the_other_mode', 'assembly_instructions_stepped']
REAL = ['the whole library from /repo (C and assembly, all source files), in up to ten build and CPU variants']
STUB = ['heap (ledger with guard pages and injected failures)', 'CPUID (feature bits masked per host; unavailable instructions trap)', 'stdout and all stdio of the library (can fail)', 'clocks and random sources (controlled; the library uses none today)',
        'caller, link with latency, and RemoteFX clients (model written from the protocol)', 'thread scheduler (baton; one runnable thread at a time)']


def sh_run(exe, prop, plan, tmp, sched=None, timeout=300):
    f = os.path.join(tmp, 'p%d' % os.getpid())
    open(f, 'w').write(plan)
    cmd = [exe, 'run', prop, f] + (['-s', sched] if sched else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        return json.loads(p.stdout)
    except (ValueError, subprocess.TimeoutExpired):
        return {'rc': 99, 'hash': '', 'violation': None, 'foreign': None, 'counters': {}}


# ---- plans as lists for the minimiser ---------------------------------------------------------
def split(text):
    env, ops, slices = {}, [], []
    for l in text.splitlines():
        w = l.split()
        if not w or w[0].startswith('#') or w[0] == 'rfxplan':
            continue
        if w[0] == 'env':
            env = dict(x.split('=', 1) for x in w[1:])
        elif w[0] in ('tile', 'cap'):
            ops[-1][2 if w[0] == 'tile' else 3].append(w[1:])
        elif w[0] == 'slice':
            slices.append(w[1:])
        else:
            ops.append([w[0], dict(x.split('=', 1) for x in w[1:]), [], []])
    return env, ops, slices


def join(env, ops, slices):
    o = ['rfxplan 1', 'env ' + ' '.join('%s=%s' % kv for kv in sorted(env.items()))]
    for t, a, tiles, caps in ops:
        o.append(t + ''.join(' %s=%s' % kv for kv in sorted(a.items())))
        o += ['  tile ' + ' '.join(x) for x in tiles] + ['  cap ' + ' '.join(x) for x in caps]
    o += ['slice ' + ' '.join(x) for x in slices]
    return '\n'.join(o) + '\n'


def minimise(exe, prop, text, cls, tmp, budget):
    t_end = time.time() + budget
    env, ops, slices = split(text)
    threads = env.get('mode') == 'threads'
    tries = [0]

    def test(e, o, s):
        if time.time() > t_end:
            return False
        seeds = [None]
        if threads and not s:
            seeds = [None, '1', '2', '3', '4', '5']
        for sd in seeds:
            if time.time() > t_end:
                return False
            e2 = dict(e)
            if sd:
                e2['schedseed'] = sd
            tries[0] += 1
            r = sh_run(exe, prop, join(e2, o, s), tmp)
            if r['rc'] == VIOL and r['violation'] and r['violation']['class'] == cls:
                if sd:
                    e['schedseed'] = sd
                return True
        return False

    def dd(lst, ok):
        n = 2
        while len(lst) >= 1 and time.time() < t_end:
            step = max(1, len(lst) // n)
            hit = False
            for i in range(0, len(lst), step):
                cand = lst[:i] + lst[i + step:]
                if ok(cand):
                    lst = cand; n = max(n - 1, 2); hit = True
                    break
            if not hit:
                if step == 1:
                    break
                n = min(n * 2, len(lst))
        return lst

    if threads and not test(env, ops, []):
        use = slices            # only the recorded schedule shows it
    else:
        use = [] if threads else slices
    for _ in range(2):
        ops = dd(ops, lambda c: test(env, c, use))
        for i in range(len(ops)):
            def with_(k, v):
                q = [list(x) for x in ops]
                q[i][k] = v
                return q
            if ops[i][2]:
                ops[i][2] = dd(ops[i][2], lambda c: bool(c) and test(env, with_(2, c), use))
            if ops[i][3]:
                ops[i][3] = dd(ops[i][3], lambda c: test(env, with_(3, c), use))
            for key in sorted(ops[i][1]):
                if key in ('h', 'th', 'fmt') or time.time() > t_end:
                    continue
                a = dict(ops[i][1]); del a[key]
                if test(env, with_(1, a), use):
                    ops[i][1] = a
            for j, t in enumerate(ops[i][2]):
                for c in ('f.1', t[7].split('~')[0]):
                    if t[7] != c:
                        nt = [list(x) for x in ops[i][2]]; nt[j][7] = c
                        if test(env, with_(2, nt), use):
                            ops[i][2] = nt
                            break
    for key in sorted(env):
        if key in ('mode', 'nthreads', 'schedseed', 'host'):
            continue
        e = dict(env); del e[key]
        if test(e, ops, use):
            env = e
    if env.get('host', '0') != '0' and not threads:
        e = dict(env, host='0')
        if test(e, ops, use):
            env = e
    if env.get('mode') == 'hosts':
        for h in range(1, 10):
            e = dict(env, hosts=str(1 << h))
            if test(e, ops, use):
                env = e
                break
    if threads and not use:
        f = os.path.join(tmp, 'sched')
        r = sh_run(exe, prop, join(env, ops, []), tmp, f)
        if r['rc'] == VIOL:
            sl = split(open(f).read())[2]
            if test(env, ops, sl):
                use = sl
    if threads and use:
        # drop slices; neighbouring slices of one thread merge by themselves
        use = dd(use, lambda c: bool(c) and test(env, ops, c))
    return join(env, ops, use), tries[0]


def fail(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def replay(prop, path):
    try:
        exe = build.build()
    except build.BuildError as e:
        fail('build: ' + str(e))
    text = open(path).read()
    tmp = tempfile.mkdtemp(prefix='rfxsim.')
    try:
        rs = [sh_run(exe, prop, text, tmp) for _ in range(2)]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if rs[0]['hash'] != rs[1]['hash'] or rs[0]['rc'] != rs[1]['rc']:
        fail('replay is not deterministic')
    print(json.dumps(rs[0]))
    if rs[0]['rc'] == VIOL:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    if rs[0]['rc'] not in (0, 11):
        fail('replay ended with code %s' % rs[0]['rc'])
    sys.exit(0)


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in QUICK:
        fail('usage: check.py PROPERTY [--replay FILE]')
    prop = sys.argv[1]
    if len(sys.argv) == 4 and sys.argv[2] == '--replay':
        replay(prop, sys.argv[3])
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    print('%s %s seed=%d' % (prop, tier, seed), flush=True)
    try:
        exe = build.build()
    except build.BuildError as e:
        fail('build: ' + str(e))
    tb = time.time() - t0
    count = int(os.environ.get('RFX_RUNS', QUICK[prop] if tier == 'quick' else 10 ** 9))
    wall = QUICK_WALL if tier == 'quick' else THOROUGH_WALL
    tmp = tempfile.mkdtemp(prefix='rfxsim.')
    try:
        t1 = time.time()
        ps = [subprocess.Popen([exe, 'batch', prop, str(seed), str(w), str(WORKERS), str(count), tier, str(wall), tmp], stderr=subprocess.PIPE, text=True) for w in range(WORKERS)]
        errs = [p.communicate()[1] for p in ps]
        dt = time.time() - t1
        sums = []
        for w in range(WORKERS):
            f = os.path.join(tmp, 'sum.%d' % w)
            if ps[w].returncode != 0 or not os.path.exists(f):
                fail('worker %d ended with %s: %s' % (w, ps[w].returncode, errs[w][-500:]))
            sums.append(json.load(open(f)))
        bad = [(s['violation_index'], w) for w, s in enumerate(sums) if s['violation_index'] >= 0]
        if not bad:
            for w, s in enumerate(sums):
                if s['error_index'] >= 0:
                    fail('run %d ended with code %d: %s' % (s['error_index'], s['rc'], errs[w][-300:]))
                if s['divergent'] >= 0:
                    fail('run %d is not repeatable' % s['divergent'])
        tot = lambda k: sum(s['counters'][k] for s in sums)
        runs = sum(s['runs'] for s in sums)
        def union(n):
            u = set()
            for w in range(WORKERS):
                d = open(os.path.join(tmp, '%s.%d' % (n, w)), 'rb').read()
                u.update(struct.unpack('<%dQ' % (len(d) // 8), d))
            return len(u)
        cov = {
            'evaluations': runs,
            'distinct_nontrivial': union('hashes'),
            'rule': RULES.get(prop, RULES['default']),
            'samples': [x for s in sums for x in s['samples']][:3],
            'runs_per_hour': int(runs / max(dt, 0.001) * 3600),
            'seeds_per_hour': int(runs / max(dt, 0.001) * 3600),
            'simulated_time_ms': tot('simulated_ms'),
            'faults_fired': {k: tot(k) for k in FAULTS if tot(k)},
            'runs_in_which_fault_fired': {k: sum(s['runs_with'][k] for s in sums) for k in FAULTS if tot(k)},
            'reached': {k: v for k, v in ((k, tot(k)) for k in sums[0]['counters'] if k not in FAULTS) if v},
            'distinct_situations': union('sits'),
            'distinct_situations_measure': 'digest of (mode, format, flags, outcome of the call, kind and offset class of the capacity, allocation fault, invalid tile, tile/region/quantiser count class, first message?, failure since last message?, key frame done?, resume count, content family, partial tile)',
            'runs_executed_twice_with_identical_trace': sum(s['twice'] for s in sums),
            'runs_cut_short_by_other_property': sum(s['stopped'] for s in sums),
            'real_code': REAL, 'stubs': STUB,
        }
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'violations': 0, 'wall_s': 0, 'build_s': round(tb, 1)}
        def write_ev():
            ev['wall_s'] = round(time.time() - t0, 1)
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
        if not bad:
            write_ev()
            print('%d runs (%d distinct non-trivial, %d situations) in %.0f s, no violation' % (runs, cov['distinct_nontrivial'], cov['distinct_situations'], dt))
            sys.exit(0)
        # a violation: confirm, minimise, confirm again in fresh processes
        bad.sort()
        reported = None
        for idx, w in bad[:3]:
            text = open(os.path.join(tmp, 'viol.%d' % w)).read()
            env, ops, sl = split(text)
            first = sh_run(exe, prop, text, tmp)
            if first['rc'] != VIOL and sl:
                text = join(env, ops, [])
                first = sh_run(exe, prop, text, tmp)
            if first['rc'] != VIOL:
                continue
            cls = first['violation']['class']
            small, tries = minimise(exe, prop, text, cls, tmp, 60 if tier == 'quick' else 300)
            for cand in (small, text):
                a, b = sh_run(exe, prop, cand, tmp), sh_run(exe, prop, cand, tmp)
                if a['rc'] == VIOL and b['rc'] == VIOL and a['hash'] == b['hash'] and a['violation'] == b['violation'] and a['violation']['class'] == cls:
                    reported = (idx, cand, a, tries)
                    break
            if reported:
                break
        if not reported:
            fail('violation in run %d does not replay: %s' % (bad[0][0], json.dumps(sums[bad[0][1]]['violation'])))
        idx, cand, a, tries = reported
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%d-%d.plan' % (prop, seed, idx))
        v = a['violation']
        open(path, 'w').write('# property %s, VERIF_SEED=%d, run %d, tier %s\n# %s: %s\n# at operation %d, call %d; trace hash %s\n# replay: python3 check.py %s --replay %s\n%s' % (prop, seed, idx, tier, v['class'], v['msg'], v['op'], v['call'], a['hash'], prop, path, cand))
        ev['violations'] = len(bad)
        cov['violation'] = {'run': idx, 'class': v['class'], 'message': v['msg'], 'minimisation_runs': tries, 'replay': path}
        write_ev()
        print('run %d: %s: %s' % (idx, v['class'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main()
