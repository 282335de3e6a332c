#!/opt/venv/bin/python
"""check.py PROP [--tier quick|thorough] [--replay FILE] [--seed N] [--runs N] [--cap SECONDS]

Runs the simulation campaign of one property against /repo's working tree.
Exit 0: held on everything explored.  Exit 1 with 'VIOLATION property=.. replay=..': it did not.
Any other exit: the machinery itself failed.
"""
import argparse
import copy
import fcntl
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('MKVERIF_REPO', '/repo')
BASE = '/dev/shm/mkverif' if os.access('/dev/shm', os.W_OK) else '/tmp/mkverif'
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
NSRV = 8


class Harness(Exception):
    pass


def lock_bank(prefer=None):
    os.makedirs(BASE, exist_ok=True)
    order = list(range(8))
    if prefer is not None:
        order.remove(prefer)
        order.insert(0, prefer)
    end = time.time() + 600
    while time.time() < end:
        for k in order:
            fh = open(os.path.join(BASE, 'b{}.lock'.format(k)), 'w')
            try:
                fcntl.flock(fh, fcntl.LOCK_EX | fcntl.LOCK_NB)
                return k, fh
            except OSError:
                fh.close()
        time.sleep(1)
    raise Harness('no free scratch bank')


class Server:
    def __init__(self, prop, bank, idx, hashseed):
        self.prop, self.idx, self.hashseed = prop, idx, hashseed
        self.slot = os.path.join(BASE, 'b{}'.format(bank), 's{:02d}'.format(idx))
        self.code = os.path.join(self.slot, 'c')
        self.proc = None

    def prepare(self):
        shutil.rmtree(self.slot, ignore_errors=True)
        os.makedirs(os.path.join(self.slot, 'd'))
        shutil.copytree(os.path.join(REPO, 'metaknowledge'), os.path.join(self.code, 'metaknowledge'),
                        ignore=shutil.ignore_patterns('tests', '__pycache__', '*.dat', '*.dir', '*.bak', 'namesData.csv', 'j9Raws'))

    def start(self):
        if not os.path.isdir(self.code):
            self.prepare()
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': self.slot, 'PYTHONHASHSEED': str(self.hashseed), 'PYTHONDONTWRITEBYTECODE': '1',
               'MPLBACKEND': 'Agg', 'PYTHONUTF8': '1', 'TZ': 'UTC', 'LANG': 'C.UTF-8', 'PYTHONPATH': HERE, 'OMP_NUM_THREADS': '1',
               'OPENBLAS_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore', 'MPLCONFIGDIR': self.slot}
        self.errpath = os.path.join(self.slot, 'stderr')
        self.proc = subprocess.Popen([PY, '-m', 'sim.engine', self.prop, self.slot, self.code], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=open(self.errpath, 'w'), env=env, text=True, cwd=HERE)
        self._boot = None

    def boot(self):
        if self._boot is None:
            line = self.proc.stdout.readline()
            if not line:
                raise Harness('a server did not start:\n' + open(self.errpath).read()[-3000:])
            self._boot = json.loads(line)
        return self._boot

    def send(self, scenario, timeout):
        self.boot()
        self.proc.stdin.write(json.dumps({'scenario': scenario, 'timeout': timeout}) + '\n')
        self.proc.stdin.flush()

    def recv(self):
        line = self.proc.stdout.readline()
        if not line:
            raise Harness('a server died:\n' + open(self.errpath).read()[-3000:])
        return json.loads(line)

    def run(self, scenario, timeout=25):
        self.send(scenario, timeout)
        return self.recv()

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
            except OSError:
                pass
            try:
                self.proc.wait(10)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
            self.proc.stdout.close()
            self.proc = None

    def restart(self):
        self.stop()
        self.start()


class Lane:
    """One worker: a server, or a pair of servers with different string hashing (CROSS)."""

    def __init__(self, mod, prop, bank, lane, seed, hashseeds=None):
        self.cross = getattr(mod, 'CROSS', False)
        self.mod = mod
        n = 2 if self.cross else 1
        hs = hashseeds or [1 + (seed * 1009 + lane * 2 + j) % 4000000000 for j in range(n)]
        self.servers = [Server(prop, bank, lane * n + j, hs[j]) for j in range(n)]
        self.hashseeds = hs

    def start(self):
        for s in self.servers:
            s.start()

    def stop(self):
        for s in self.servers:
            s.stop()

    def restart(self):
        for s in self.servers:
            s.restart()

    def once(self, scenario, timeout):
        for s in self.servers:
            s.send(scenario, timeout)
        rs = [s.recv() for s in self.servers]
        r = rs[0]
        for o in rs:
            if o['status'] != 'ok':
                return o
        if self.cross and rs[0]['observed'] != rs[1]['observed']:
            a, b = rs[0]['observed'], rs[1]['observed']
            diff = [(x, y) for x, y in zip(a, b) if x != y]
            if diff:
                x, y = diff[0]
                msg = 'the same program gave different answers in two processes\n  {}\n  process A (hash seed {}): {}\n  process B (hash seed {}): {}'.format(
                    x[0], self.hashseeds[0], x[1][:900], self.hashseeds[1], y[1][:900])
                lab = x[0].split(' ')[0].split(':')[0]
            else:
                msg, lab = 'the two processes observed a different number of things', 'count'
            r = dict(r, status='violation', cls='differs-between-processes:' + lab, msg=msg)
        r.pop('observed', None)
        return r

    def run(self, scenario, confirm=True):
        r = self.once(scenario, getattr(self.mod, 'TIMEOUT', 25))
        if r['status'] == 'hang' and confirm:
            r = self.once(scenario, 70)
        if r['status'] == 'hang':
            r = dict(r, status='violation', cls='hang')
        if r['status'] == 'import':
            r = dict(r, status='violation', cls='import-failure') if r.get('inside') else dict(r, status='harness')
        return r


def scenario_for(mod, prop, seed, i, tier):
    rng = random.Random('{}-{}-{}'.format(prop, seed, i))
    sc = mod.gen(rng, i, tier)
    sc['seed'] = '{}-{}-{}'.format(prop, seed, i)
    return json.loads(json.dumps(sc))


# ------------------------------------------------------------------------------ minimising
def candidates(node, path=()):
    """Paths of shrinkable things, biggest first."""
    out = []
    if isinstance(node, list):
        out.append((path, 'list', len(node)))
        for i, v in enumerate(node):
            out += candidates(v, path + (i,))
    elif isinstance(node, dict):
        for k in node:
            if k != 'seed':
                out += candidates(node[k], path + (k,))
    elif isinstance(node, int) and not isinstance(node, bool) and node not in (0, 1):
        out.append((path, 'int', node))
    return out


def get(node, path):
    for p in path:
        node = node[p]
    return node


def put(node, path, value):
    node = copy.deepcopy(node)
    if not path:
        return value
    cur = node
    for p in path[:-1]:
        cur = cur[p]
    cur[path[-1]] = value
    return node


def minimise(lane, scenario, cls, budget=260, seconds=50):
    end = time.time() + seconds
    tries = 0

    def still(sc):
        nonlocal tries
        tries += 1
        r = lane.run(sc, confirm=False)
        return r['status'] == 'violation' and r['cls'] == cls

    cur = scenario
    progress = True
    if cls == 'hang':
        return cur, tries
    while progress and tries < budget and time.time() < end:
        progress = False
        lists = sorted([c for c in candidates(cur) if c[1] == 'list' and c[2] > 0], key=lambda c: (len(c[0]), -c[2]))
        for path, _, n in lists:
            try:
                val = get(cur, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(val, list):
                continue
            size = max(1, len(val))
            while size >= 1 and tries < budget and time.time() < end:
                i = 0
                while i < len(val) and tries < budget and time.time() < end:
                    new = val[:i] + val[i + size:]
                    sc = put(cur, path, new)
                    if still(sc):
                        cur, val, progress = sc, new, True
                    else:
                        i += size
                size //= 2
        ints = [c for c in candidates(cur) if c[1] == 'int']
        for path, _, n in ints[:60]:
            if tries >= budget or time.time() > end:
                break
            for v in (0, 1, n // 2):
                if v == n:
                    continue
                try:
                    sc = put(cur, path, v)
                except (KeyError, IndexError, TypeError):
                    break
                if still(sc):
                    cur, progress = sc, True
                    break
    return cur, tries


# ------------------------------------------------------------------------------ known findings
def known_lines(prop):
    out = {}
    try:
        with open(os.path.join(HERE, 'known-findings.txt'), encoding='utf-8') as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('known: property={} '.format(prop)):
                    rest = line.split(' ', 2)[2]
                    key, what = rest.split(' ', 1)
                    out[key.split('=', 1)[1]] = what
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--keep-going', action='store_true')
    args = ap.parse_args()
    if args.setup:
        # nothing is compiled: check that what the runs need is there
        os.makedirs(BASE, exist_ok=True)
        subprocess.check_call([PY, '-c', 'import networkx, numpy'])
        for f in sorted(os.listdir(os.path.join(HERE, 'sim', 'props'))):
            if f.startswith('p') and f.endswith('.py'):
                importlib.import_module('sim.props.' + f[:-3])
        print('ready')
        return 0
    if not args.prop:
        ap.error('which property?')
    prop, tier, seed = args.prop.upper(), args.tier, args.seed
    mod = importlib.import_module('sim.props.' + prop.lower())
    t0 = time.time()
    prefer = None
    rep = None
    if args.replay:
        rep = json.load(open(args.replay))
        prefer = rep['bank']
    bank, lockfh = lock_bank(prefer)
    lanes = []
    bankdir = os.path.join(BASE, 'b{}'.format(bank))
    shutil.rmtree(bankdir, ignore_errors=True)
    try:
        if rep is not None:
            lane = Lane(mod, prop, bank, rep['lane'], rep['verif_seed'], rep['hashseeds'])
            lanes.append(lane)
            lane.start()
            r = lane.run(rep['scenario'])
            print(json.dumps({k: r.get(k) for k in ('status', 'cls', 'digest')}))
            print(r.get('msg', ''))
            for l in r.get('log', []):
                print('   ', l)
            if r['status'] == 'violation':
                same = r['cls'] == rep['cls'] and (r.get('digest') == rep['digest'] or bank != rep['bank'])
                print('replay: {}'.format('exactly the recorded violation' if same else 'a violation, recorded was {} {}'.format(rep['cls'], rep['digest'])))
                print('VIOLATION property={} replay={}'.format(prop, args.replay))
                return 1
            if r['status'] != 'ok':
                return 2
            print('replay: the recorded violation ({}) did not happen'.format(rep['cls']))
            return 0
        return campaign(args, mod, prop, tier, seed, bank, lanes, t0)
    except Harness as e:
        print('HARNESS ERROR: {}'.format(e), file=sys.stderr)
        return 2
    finally:
        for l in lanes:
            try:
                l.stop()
            except Exception:       # noqa
                pass
        shutil.rmtree(bankdir, ignore_errors=True)
        lockfh.close()


def campaign(args, mod, prop, tier, seed, bank, lanes, t0):
    total = args.runs or mod.RUNS[tier]
    cap = args.cap or getattr(mod, 'CAP', {}).get(tier, 70 if tier == 'quick' else 780)
    for l in range(NSRV):
        lanes.append(Lane(mod, prop, bank, l, seed))
    for l in lanes:
        l.start()
    fixed = [json.loads(json.dumps(s)) for s in getattr(mod, 'FIXED', [])]
    known = known_lines(prop)
    probes = getattr(mod, 'KNOWN', {})
    violations, harness, stats = [], [], []
    mutex = threading.Lock()
    stop = threading.Event()
    end = t0 + cap
    first = {}

    def work(lane_no):
        lane = lanes[lane_no]
        try:
            for i in range(lane_no - len(fixed) // NSRV * NSRV - NSRV, total, NSRV):
                if stop.is_set() or (time.time() > end and i >= 0):
                    break
                if i < 0:
                    k = -1 - i
                    if k >= len(fixed):
                        continue
                    sc = dict(fixed[k], seed='fixed-{}'.format(k))
                else:
                    sc = scenario_for(mod, prop, seed, i, tier)
                r = lane.run(sc)
                with mutex:
                    stats.append((i, r))
                    if i >= 0:
                        first[i] = r.get('digest')
                    if r['status'] == 'violation':
                        violations.append((i, lane_no, sc, r))
                        if not args.keep_going or len(violations) > 40:
                            stop.set()
                    elif r['status'] != 'ok':
                        harness.append((i, sc, r))
                        stop.set()
        except Exception as e:      # noqa
            with mutex:
                harness.append((-999, None, {'msg': repr(e)}))
            stop.set()

    threads = [threading.Thread(target=work, args=(n,)) for n in range(NSRV)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    search_s = time.time() - t0
    exit_code = 0

    # every listed known finding must still be what it was
    found_known = []
    for key, what in sorted(known.items()):
        if key not in probes:
            harness.append((-998, None, {'msg': 'known finding {} has no probe'.format(key)}))
            continue
        sc, want = probes[key]
        sc = dict(json.loads(json.dumps(sc)), seed='known-' + key)
        r = lanes[0].run(sc)
        if r['status'] == 'violation' and r['cls'] == want:
            print('KNOWN-FINDING: property={} {}'.format(prop, what))
            found_known.append({'key': key, 'what': what})
        elif r['status'] == 'violation':
            violations.append((-1, 0, sc, r))
        elif r['status'] == 'ok':
            print('note: known finding {} of {} no longer fails'.format(key, prop))
        else:
            harness.append((-997, sc, r))

    # determinism: the same seeds again, in fresh processes
    det = {'rerun': 0, 'different': 0}
    if not violations and not harness:
        for l in lanes:
            l.restart()
        again = sorted(first)[:24]
        bad = []

        def redo(lane_no):
            try:
                for i in again:
                    if i % NSRV != lane_no:
                        continue
                    r = lanes[lane_no].run(scenario_for(mod, prop, seed, i, tier))
                    with mutex:
                        det['rerun'] += 1
                        if r.get('digest') != first[i]:
                            det['different'] += 1
                            bad.append(i)
            except Exception as e:  # noqa
                with mutex:
                    harness.append((-996, None, {'msg': repr(e)}))
        threads = [threading.Thread(target=redo, args=(n,)) for n in range(NSRV)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if bad:
            det['seeds'] = bad
            print('warning: runs {} were not repeatable'.format(bad), file=sys.stderr)
            if det['different'] > 2:
                harness.append((-995, None, {'msg': 'the simulation is not deterministic: runs {}'.format(bad)}))

    rows = []
    seen_cls = set()
    for i, lane_no, sc, r in sorted(violations, key=lambda v: v[0]):
        if r['cls'] in seen_cls:
            continue
        seen_cls.add(r['cls'])
        lane = lanes[lane_no]
        small, tries = (sc, 0)
        if time.time() - t0 < 700:
            small, tries = minimise(lane, sc, r['cls'])
        lane.restart()
        r2 = lane.run(small)
        if not (r2['status'] == 'violation' and r2['cls'] == r['cls']):
            small = sc
            r2 = lane.run(sc)
        repro = r2['status'] == 'violation' and r2['cls'] == r['cls']
        if not repro:
            r2 = r
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '{}-{}-{}.json'.format(prop, seed, len(rows)))
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'run': i, 'verif_seed': seed, 'bank': bank, 'lane': lane_no, 'hashseeds': lane.hashseeds, 'cls': r['cls'],
                       'msg': r2.get('msg'), 'digest': r2.get('digest'), 'scenario': small, 'original': sc, 'reproduced_in_fresh_process': repro,
                       'minimising_runs': tries, 'trace': r2.get('log', [])}, fh, indent=1)
            fh.write('\n')
        print('{}: {}\n{}'.format(prop, r['cls'], r2.get('msg')))
        print('VIOLATION property={} replay={}'.format(prop, path))
        rows.append({'class': r['cls'], 'run': i, 'replay': path, 'reproduced': repro})
        exit_code = 1
        if len(rows) >= 3:
            break
    write_evidence(mod, prop, tier, seed, stats, search_s, time.time() - t0, det, rows, found_known, total)
    if exit_code == 0 and harness:
        print('HARNESS ERROR in {}'.format(prop), file=sys.stderr)
        for i, sc, r in harness[:3]:
            print('run {}: {}\n{}'.format(i, r.get('msg'), json.dumps(sc)[:2000]), file=sys.stderr)
        return 2
    n = len(stats)
    print('{} {}: {} runs in {:.0f} s, {} faults fired, {} distinct executions{}'.format(
        prop, tier, n, search_s, sum(sum(r.get('fired', {}).values()) for _, r in stats), len({r.get('digest') for _, r in stats}),
        '' if exit_code else ', held'))
    return exit_code


def write_evidence(mod, prop, tier, seed, stats, search_s, wall, det, violations, known, planned):
    from collections import Counter
    fired, ops, notes, states = Counter(), Counter(), Counter(), set()
    sim = steps = 0
    distinct = set()
    for _, r in stats:
        fired.update(r.get('fired', {}))
        ops.update(r.get('ops', {}))
        notes.update(r.get('notes', {}))
        states.update(r.get('states', []))
        sim += r.get('sim', 0)
        steps += r.get('steps', 0)
        if r.get('active') and r.get('digest'):
            distinct.add(r['digest'])
    samples = []
    for i in sorted(i for i, _ in stats if i >= 0)[:40:13][:4]:
        s = json.dumps(scenario_for(mod, prop, seed, i, tier))
        samples.append(s if len(s) < 1500 else s[:1500] + '...')
    h = max(search_s, .001) / 3600
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(stats), 'distinct_nontrivial': len(distinct),
            'rule': getattr(mod, 'RULE', 'a run counts when at least one fault fired, one task switch happened or one operation of its history took effect; '
                            'two runs are the same when the digest of everything the simulator saw (every simulated system call, fault, switch, terminal '
                            'write and observation) is the same'),
            'samples': samples or ['(none)'],
            'planned_runs': planned, 'runs_per_hour': round(len(stats) / h), 'seeds_per_hour': round(len(stats) / h),
            'simulated_seconds': round(sim, 1), 'simulated_system_calls': steps,
            'faults_injected': dict(sorted(fired.items())), 'operations': dict(sorted(ops.items())), 'probes': dict(sorted(notes.items())),
            'distinct_states': len(states), 'state_measure': getattr(mod, 'STATE_MEASURE', 'abstract state keys noted by the property module'),
            'determinism_check': det, 'real_code': getattr(mod, 'REAL', 'all of metaknowledge, networkx, the csv, dbm.dumb, pickle and xml modules'),
            'stubbed': getattr(mod, 'STUB', 'disk behaviour (real bytes in a scratch directory), clock, directory order, terminal'),
        },
        'wall_s': round(wall, 1),
        'assumptions': getattr(mod, 'ASSUMPTIONS', ['the simulated disk, clock and scheduler only misbehave in the ways listed in DESIGN.md']),
        'violations': len(violations),
    }
    if violations:
        ev['coverage']['violation_classes'] = violations
    if known:
        ev['coverage']['known_findings'] = known
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.{}.tmp'.format(prop))
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    os.replace(tmp, os.path.join(HERE, 'evidence', '{}.json'.format(prop)))


if __name__ == '__main__':
    sys.exit(main())
