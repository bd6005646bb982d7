#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--repo DIR]

Builds the simulator from /repo's current working tree, runs the seeded simulations of one property,
re-runs every violation from its replay file in a fresh process, writes evidence/<PROPERTY>.json.
exit 0 held / 1 violated / 2 the check itself failed."""
import sys, os, json, hashlib, subprocess, time, glob, shutil, fcntl, re

HERE = os.path.dirname(os.path.abspath(__file__))
FLAVOUR = {'C01': 'tsan', 'C02': 'tsan', 'C12': 'tsan', 'C13': 'therm', 'C18': 'fit'}
# runs per worker and wall-clock cap [s] per tier; the number of runs decides, the cap is a safety net
BUDGET = json.load(open(os.path.join(HERE, 'budget.json')))
RULE = json.load(open(os.path.join(HERE, 'rules.json')))
WORKERS = 8


def sh(cmd, **k):
    return subprocess.run(cmd, **k)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        for root, dirs, files in os.walk(p):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.cpp', '.hpp', '.h', '.sh', '.csv')):
                    fp = os.path.join(root, f)
                    h.update(fp.encode())
                    with open(fp, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()


def build(flavour, repo):
    out = os.path.join(HERE, 'build', flavour)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(HERE, 'build', flavour + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash([os.path.join(HERE, 'sim'), os.path.join(repo, 'src')]) + repo
        stamp = os.path.join(out, 'stamp')
        exe = os.path.join(out, 'sim')
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
            return exe
        for p in (stamp, exe):
            if os.path.exists(p):
                os.remove(p)
        shutil.rmtree(os.path.join(out, 'obj'), ignore_errors=True)
        r = sh(['bash', os.path.join(HERE, 'sim', 'build.sh'), flavour, out, repo], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(exe):
            print(r.stdout[-4000:])
            print('check error: the simulator could not be built from', repo)
            sys.exit(2)
        with open(stamp, 'w') as f:
            f.write(key)
        return exe


def known():
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) tag=(\S+) match=(.*?) \| (.*)$', l.strip())
            if m:
                res.append(m.groups())
    return res


def replay(exe, f, repo):
    r = sh([exe, '--repo', repo, '--replay', f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=400)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return {'res': -1, 'tag': '', 'msg': 'replay gave no answer: ' + r.stdout[-200:], 'hash': ''}


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        for fl in ('plain', 'tsan', 'therm', 'fit'):
            build(fl, '/repo')
        return
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    repo, rep = '/repo', None
    i = 1
    scale = 1.0
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]
        elif a[i] == '--replay': rep = a[i + 1]
        elif a[i] == '--repo': repo = a[i + 1]
        elif a[i] == '--scale': scale = float(a[i + 1])
        i += 2
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    exe = build(FLAVOUR.get(prop, 'plain'), repo)
    tb = time.time() - t0
    if rep:
        r = replay(exe, rep, repo)
        print(json.dumps(r))
        if r['res'] == 2:
            print(f'VIOLATION property={prop} replay={rep}')
            sys.exit(1)
        sys.exit(0 if r['res'] == 1 else 2)

    runs, cap = BUDGET[prop][tier]
    runs = max(1, int(runs * scale))
    out = os.path.join(HERE, 'build', 'out', prop + '-' + str(os.getpid()))
    os.makedirs(out, exist_ok=True)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    t1 = time.time()
    ps = []
    for k in range(WORKERS):
        ps.append(subprocess.Popen([exe, '--prop', prop, '--repo', repo, '--seed', str(seed), '--start', str(k), '--stride', str(WORKERS), '--runs', str(runs),
                                    '--cap', str(cap), '--out', out, '--tier', tier], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    errs = []
    for k, p in enumerate(ps):
        try:
            _, e = p.communicate(timeout=cap + 400)
        except subprocess.TimeoutExpired:
            p.kill()
            errs.append(f'worker {k} did not end')
            continue
        if p.returncode not in (0, 1):
            errs.append(f'worker {k}: exit {p.returncode} {e[-300:]}')
    tr = time.time() - t1
    tot, faults, states, scheds, samples = {}, {}, set(), set(), []
    for k in range(WORKERS):
        f = os.path.join(out, f'stat.{k}.json')
        if not os.path.exists(f):
            errs.append(f'worker {k} wrote no statistics')
            continue
        d = json.load(open(f))
        for x, v in d.items():
            if isinstance(v, (int, float)):
                tot[x] = tot.get(x, 0) + v
        for x, v in d['faults'].items():
            faults[x] = faults.get(x, 0) + v
        states |= set(d['states'])
        scheds |= set(d['scheds'])
        samples += d['samples'][:1]
    viols = []
    for k in range(WORKERS):
        f = os.path.join(out, f'viol.{k}.json')
        if os.path.exists(f):
            for l in open(f):
                d = json.loads(l)
                if d.get('harness'):
                    errs.append(f"run {d['run']}: {d['msg']}")
                else:
                    viols.append(d)
    viols.sort(key=lambda d: d['run'])
    kn = known()
    confirmed, knownhit, unconfirmed, seen = [], [], [], {}
    for d in viols:
        ks = [x for x in kn if x[0] == prop and x[1] == d['tag'] and re.search(x[2], d['msg'])]
        if ks:
            knownhit.append(ks[0])
            continue
        if seen.get(d['tag'], 0) >= 2:
            continue
        seen[d['tag']] = seen.get(d['tag'], 0) + 1
        dst = os.path.join(rdir, os.path.basename(d['replay']))
        shutil.copy(d['replay'], dst)
        r1 = replay(exe, dst, repo)
        if r1['res'] == 2 and r1['tag'] == d['tag'] and r1['hash'] == d['hash']:
            d['replay'] = dst
            confirmed.append(d)
        else:
            unconfirmed.append((d, r1))
    for x in sorted(set(knownhit)):
        print(f'KNOWN-FINDING: property={prop} {x[3]}')
    simsec = tot.get('simtime', 0)
    n = int(tot.get('runs', 0))
    cov = {
        'evaluations': n,
        'distinct_nontrivial': min(len(states), int(tot.get('nontrivial', 0))),
        'rule': RULE[prop],
        'samples': samples[:3],
        'runs_nontrivial': int(tot.get('nontrivial', 0)),
        'distinct_end_states': len(states),
        'distinct_schedules': len(scheds),
        'runs_discarded': int(tot.get('skips', 0)),
        'runs_repeated_for_determinism': int(tot.get('dups', 0)),
        'runs_per_hour': int(n / max(tr, 1e-3) * 3600),
        'simulated_battery_seconds': simsec,
        'scheduler_steps': int(tot.get('steps', 0)),
        'context_switches': int(tot.get('switches', 0)),
        'preemptions': int(tot.get('preempts', 0)),
        'threads_simulated': int(tot.get('threads', 0)),
        'faults_injected': faults,
        'real_components': 'all of /repo/src that the scenario uses (cells, modules, battery, coolsystems, cycler, procedures, data storage, CSV readers, matrices)',
        'stubbed_components': 'file system, clocks, entropy, core count and thread scheduling are simulated; leaf cells are real cells wrapped by a probe that injects failures',
        'build_s': round(tb, 1),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ['interleavings are sequentially consistent at the granularity of memory accesses; data races are reported by a vector-clock detector',
                          'the simulated file system returns exactly the errors of POSIX open/read/write/close/fflush; libstdc++ and libc above it are real'],
          'wall_s': round(time.time() - t0, 1), 'violations': len(confirmed)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(out, ignore_errors=True)
    for d in confirmed:
        print(f"{d['tag']}: {d['msg']}")
        print(f"VIOLATION property={prop} replay={d['replay']}")
    if confirmed:
        sys.exit(1)
    for d, r in unconfirmed:
        print('check error: violation not reproduced from its replay file', d, r)
    for e in errs:
        print('check error:', e)
    if errs or unconfirmed:
        sys.exit(2)
    if n == 0:
        print('check error: no run')
        sys.exit(2)
    print(f"{prop} held: {n} runs ({int(tot.get('nontrivial', 0))} non-trivial), {len(states)} end states, {len(scheds)} schedules, {simsec:.0f} simulated s, faults {faults}, {tr:.0f} s + {tb:.0f} s build")


main()
