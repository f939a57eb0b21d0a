#!/usr/bin/env python3
"""check.py ID            decide one property (VERIF_SEED, VERIF_TIER)
check.py --replay FILE   replay a minimised scenario; exit 1 when it still fails
check.py --build         build both variants of the simulator
check.py --determinism   run the determinism self-test

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import concurrent.futures
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
BUILD = os.environ.get('SIM_BUILD', os.path.join(HERE, '.build'))
INST = {'C01', 'C02', 'C03', 'C06', 'C07', 'C08'}
# scenarios explored in a quick run: (count, seconds at most)
QUICK = {
    'C01': 12000, 'C02': 1600, 'C03': 5000, 'C04': 7000, 'C05': 2600, 'C06': 1800, 'C07': 7000, 'C08': 2200,
    'C09': 16000, 'C10': 19000, 'C11': 19000, 'C12': 16000, 'C13': 24000, 'C14': 4500, 'C15': 1000, 'C16': 12000, 'C19': 6000, 'C20': 3500,
}
QUICK_CAP, THOROUGH_CAP = 75, 780

class Broken(Exception):
    pass

def source_hash(variant):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'lib', 'include'), os.path.join(REPO, 'lib', 'src'), SIM]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) and not os.path.exists(p):
                    continue
                h.update(os.path.relpath(p, root).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20] + '-' + variant

def build(variant):
    """The binary for the present contents of /repo, built when it is not there yet."""
    key = source_hash(variant)
    out = os.path.join(BUILD, key)
    exe = os.path.join(out, 'sim_' + variant)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for e in sorted(os.listdir(BUILD)):      # keep the cache small
        p = os.path.join(BUILD, e)
        try:
            if time.time() - os.path.getmtime(p) > 6 * 3600:
                shutil.rmtree(p, ignore_errors=True)
        except OSError:
            pass
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    env = dict(os.environ, SIM_REPO=REPO)
    r = subprocess.run(['bash', os.path.join(SIM, 'build.sh'), tmp, variant], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise Broken('the simulator does not build:\n' + r.stdout.decode('utf-8', 'replace')[-4000:])
    for f in os.listdir(tmp):
        if f.endswith('.o'):
            os.unlink(os.path.join(tmp, f))
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe

def run_scn(exe, path, timeout=600):
    r = subprocess.run([exe, 'run', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    t = r.stdout.decode('utf-8', 'replace')
    m = re.search(r'RESULT (\w+)(?: hash=(\w+))?(?: cls=(\S+) detail=(.*))?', t)
    if not m:
        raise Broken('no result from a replay: ' + t[-500:])
    return {'verdict': m.group(1), 'hash': m.group(2), 'cls': m.group(3), 'detail': m.group(4) or ''}

def known_findings(prop):
    res = []
    p = os.path.join(HERE, 'known', 'findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=(\S+) scenario=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                res.append({'match': m.group(2), 'scenario': m.group(3), 'what': m.group(4)})
    return res

def cpus():
    try:
        return sorted(os.sched_getaffinity(0))
    except AttributeError:
        return list(range(os.cpu_count() or 1))

def explore(exe, prop, seed, count, cap, thorough, work):
    """Eight workers over disjoint scenario numbers."""
    cp = cpus()
    nw = min(8, max(1, len(cp)))
    procs = []
    for w in range(nw):
        out = os.path.join(work, 'w%d' % w)
        c = cp[w % len(cp)]
        procs.append((subprocess.Popen([exe, 'explore', prop, str(seed), str(w), str(nw), str(count), str(cap), '1' if thorough else '0', out],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=lambda c=c: os.sched_setaffinity(0, {c}), start_new_session=True), out))
    limit = time.time() + cap + 300
    found_at = None
    while True:
        alive = [p for p, _ in procs if p.poll() is None]
        if not alive:
            break
        if found_at is None and any(p.poll() not in (None, 0) for p, _ in procs):
            found_at = time.time()
        if (found_at and time.time() - found_at > 3) or time.time() > limit:
            for p in alive:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
            break
        time.sleep(0.05)
    res = {'done': 0, 'programs': 0, 'violations': [], 'errors': [], 'samples': [], 'probes': {}, 'hashes': set(), 'workers': nw}
    for w, (p, out) in enumerate(procs):
        if p.returncode not in (0, 1, 77, -9):
            res['errors'].append('worker %d ended with %d' % (w, p.returncode))
        if p.returncode == -9 and not found_at:
            res['errors'].append('worker %d did not finish' % w)
        try:
            lines = open(out).read().splitlines()
        except OSError:
            lines = []
        for l in lines:
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if 'violation' in d:
                d['violation']['file'] = out + '.bad'
                res['violations'].append(d['violation'])
            elif 'error' in d:
                res['errors'].append(d['error'])
                res['error_file'] = out + '.bad'
            else:
                res['done'] += d['done']
                res['programs'] += d['programs']
                res['samples'] += d['samples'][:1]
                for k, v in d['probes'].items():
                    res['probes'][k] = res['probes'].get(k, 0) + v
        try:
            h = open(out + '.hashes', 'rb').read()
            res['hashes'].update(struct.unpack('<%dQ' % (len(h) // 8), h[:len(h) // 8 * 8]))
        except OSError:
            pass
    return res

def confirm(exe, path, tries=2):
    """The same failure with the same hash in fresh processes."""
    with concurrent.futures.ThreadPoolExecutor(tries) as pool:
        rs = list(pool.map(lambda _: run_scn(exe, path), range(tries)))
    return rs[0] if all(r['verdict'] == 'violated' and r['hash'] == rs[0]['hash'] for r in rs) else None

REAL = ['all of /repo/lib/src and /repo/lib/include (estimators, both algorithms, parameters, state, JSON codec, generators, logger) compiled from the working tree',
        'vendored nlohmann json and the C++ standard library']
STUB = ['OpenMP runtime (GOMP_* and omp_*): teams, work shares, barriers, locks and the number of threads granted come from the simulator',
        'thread creation and context switches: one thread runs at a time, the seeded scheduler decides',
        'heap: simulated allocator with chosen contents, reuse, placement and failures',
        'std::random_device / getrandom, processor count, clocks', 'std::clog sink', 'durable storage of saved documents', 'process crash and restart (a fresh process with only the durable documents)']

def evidence(prop, tier, seed, res, wall, violations, extra=None):
    pr = res['probes']
    ex = res.get('explore_wall', wall) or 1e-9
    faults = {k[7:]: v for k, v in pr.items() if k.startswith('fault: ')}
    for src, dst in (('crashes', 'process crashes'), ('restarts', 'restarts from durable documents'), ('concurrent phases', 'phases with several caller threads')):
        if src in pr:
            faults[dst] = pr[src]
    for k, v in pr.items():
        if k.startswith('bad requests') or k.startswith('damage') or k.startswith('documents') or k.startswith('oom fired') or k.startswith('noise'):
            faults[k] = v
    cov = {
        'evaluations': res['done'],
        'distinct_nontrivial': len(res['hashes']),
        'rule': 'one evaluation is one seeded scenario (a history of calls run as one or several simulated processes under seeded schedules and faults); '
                'two count as distinct when the hash over all scheduling decisions, call outcomes and observed states differs; every scenario drives a real estimator through at least one call',
        'samples': res['samples'][:4] or ['none'],
        'simulated_processes': pr.get('simulated processes', 0),
        'runs_per_hour': int(res['done'] / ex * 3600),
        'seeds_per_hour': int(res['done'] / ex * 3600),
        'simulated_time': {'unit': 'scheduler events (the library has no clock or timer)', 'memory_accesses_ordered': pr.get('~memory accesses ordered', 0), 'context_switches': pr.get('~switches', 0)},
        'fault_kinds_fired': faults,
        'schedule': {'parallel_regions': pr.get('~parallel regions', 0), 'team_members_started': pr.get('~workers started', 0), 'lock_operations': pr.get('~lock operations', 0), 'context_switches': pr.get('~switches', 0)},
        'distinct_measure': 'hash over (thread, event number, next thread) of every context switch plus every call outcome and state observed',
        'probes': {k: v for k, v in sorted(pr.items()) if not k.startswith('~')},
        'repeated_executions_identical': pr.get('executions repeated', 0),
        'real_components': REAL, 'stub_components': STUB,
        'workers': res['workers'],
    }
    if extra:
        cov.update(extra)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ['sequentially consistent interleavings (weaker memory orders are covered through the happens-before race check)',
                          'gcc x86-64 build of the working tree; the libgomp entry points used by gcc are modelled by the simulator'],
          'wall_s': round(wall, 2), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)

def settle(exe, prop, v, work, tier):
    """From a failing scenario to a minimised, exactly replaying file; None when it does not reproduce."""
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    dest = os.path.join(HERE, 'replays', '%s-%d.scn' % (prop, v['seed']))
    raw = v['file']
    first = confirm(exe, raw)
    if not first:
        return None, None
    mn = os.path.join(work, 'min.scn')
    budget = 40 if tier == 'quick' else 240
    try:
        subprocess.run([exe, 'minimise', raw, mn, str(budget)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=budget + 200)
        small = confirm(exe, mn) if os.path.exists(mn) else None
    except (subprocess.TimeoutExpired, Broken):
        small = None
    shutil.copy(mn if small else raw, dest)
    return dest, small or first

def check(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    exe = build('inst' if prop in INST else 'fast')
    thorough = tier == 'thorough'
    count = QUICK[prop] * (60 if thorough else 1)
    cap = float(os.environ.get('VERIF_CAP', THOROUGH_CAP if thorough else QUICK_CAP))
    work = tempfile.mkdtemp(prefix='sim-%s-' % prop)
    try:
        hits = []
        for k in known_findings(prop):
            r = run_scn(exe, os.path.join(HERE, 'known', k['scenario']))
            if r['verdict'] == 'violated' and re.search(k['match'], r['cls'] + ' ' + r['detail']):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                hits.append(k['what'])
        t1 = time.time()
        res = explore(exe, prop, seed, count, cap, thorough, work)
        res['explore_wall'] = time.time() - t1
        if res['violations']:
            for v in res['violations']:
                dest, r = settle(exe, prop, v, work, tier)
                if dest:
                    print('seed %d: %s: %s' % (v['seed'], r['cls'], r['detail'][:600]))
                    print('VIOLATION property=%s replay=%s' % (prop, dest))
                    evidence(prop, tier, seed, res, time.time() - t0, 1, {'violation': {'seed': v['seed'], 'class': r['cls'], 'detail': r['detail'][:600], 'replay': dest}})
                    return 1
            raise Broken('a failing scenario does not reproduce: ' + json.dumps(res['violations'][0])[:600])
        if res['errors']:
            raise Broken(res['errors'][0])
        if res['done'] == 0:
            raise Broken('nothing was explored')
        evidence(prop, tier, seed, res, time.time() - t0, 0, {'known_findings_reproduced': hits} if hits else None)
        print('%s held: %d scenarios, %d distinct, %.1f s' % (prop, res['done'], len(res['hashes']), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def determinism():
    """Every scenario twice, in different processes, at different worker counts and placements."""
    bad = 0
    for prop in sorted(QUICK):
        exe = build('inst' if prop in INST else 'fast')
        n = 24 if prop in INST else 48
        seqs = []
        for layout in (1, 3, 8):
            work = tempfile.mkdtemp(prefix='sim-det-')
            ps = []
            for w in range(layout):
                ps.append(subprocess.Popen([exe, 'explore', prop, '77', str(w), str(layout), str(n), '600', '0', os.path.join(work, str(w))], stdout=subprocess.DEVNULL, env=dict(os.environ, NOISE='x' * (layout * 37))))
            hs = {}
            for w, p in enumerate(ps):
                p.wait()
                h = open(os.path.join(work, str(w)) + '.hashes', 'rb').read()
                for i, v in enumerate(struct.unpack('<%dQ' % (len(h) // 8), h)):
                    hs[w + i * layout] = v
            seqs.append(hs)
            shutil.rmtree(work, ignore_errors=True)
        same = all(s == seqs[0] for s in seqs) and len(seqs[0]) == n
        print('%s: %d scenarios, 3 layouts, %s' % (prop, len(seqs[0]), 'identical' if same else 'DIFFERENT'))
        bad += not same
    return 2 if bad else 0

def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['--build']:
            build('inst')
            build('fast')
            return 0
        if a[:1] == ['--determinism']:
            return determinism()
        if a[:1] == ['--replay']:
            prop = re.search(r'prop=(C\d\d)', open(a[1]).read()).group(1)
            r = run_scn(build('inst' if prop in INST else 'fast'), a[1])
            print('%s hash=%s %s %s' % (r['verdict'], r['hash'], r['cls'] or '', r['detail']))
            if r['verdict'] == 'violated':
                print('VIOLATION property=%s replay=%s' % (prop, a[1]))
            return {'held': 0, 'violated': 1}.get(r['verdict'], 2)
        if len(a) == 1 and a[0] in QUICK:
            return check(a[0])
    except Broken as e:
        print('CHECK-ERROR: %s' % e)
        return 2
    print(__doc__)
    return 2

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
