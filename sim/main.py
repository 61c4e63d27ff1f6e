"""Entry point of the checks.

    main.py check C01 [--tier quick|thorough] [--seed N] [--count N]
    main.py replay FILE
    main.py selftest
"""

import argparse
import importlib
import json
import os
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable
if os.path.realpath(sys.prefix) != os.path.realpath(
        os.path.dirname(os.path.dirname(PY))) and PY != sys.executable \
        and __name__ == '__main__' and not os.environ.get('MDPOSIM_EXEC'):
    os.environ['MDPOSIM_EXEC'] = '1'
    os.execv(PY, [PY, '-B', os.path.abspath(__file__), *sys.argv[1:]])
sys.dont_write_bytecode = True
GUARD = {'quick': 420, 'thorough': 820}
HASHSEED = '1'


class HarnessError(Exception):
    pass


class Worker:
    def __init__(self, prop):
        env = dict(os.environ)
        for k in list(env):
            if k.startswith('PYTHON'):
                del env[k]
        env.update(PYTHONHASHSEED=HASHSEED, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPATH=HERE, LC_ALL='C.UTF-8', PYTHONUTF8='1')
        self.p = subprocess.Popen(
            [PY, '-u', os.path.join(HERE, 'worker.py'), prop], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            text=True, encoding='utf-8')
        self.lock = threading.Lock()

    def ask(self, **req):
        with self.lock:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        if not line:
            raise HarnessError(f'worker ended ({self.p.poll()})')
        r = json.loads(line)
        if 'harness' in r:
            raise HarnessError(r['harness'])
        return r

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


def jobs():
    return max(1, min(8, len(os.sched_getaffinity(0))))


def known_findings(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p, encoding='utf-8') as f:
        return [k for k in json.load(f)['findings']
                if k['property'] == prop and k['status'] == 'known']


def matches(finding, v):
    return finding['cls'] == v['cls'] and \
        re.search(finding['match'], v['msg']) is not None


def search(prop, tier, seed, count, until):
    """Distribute seeds over workers; returns merged evidence and violation."""
    batch = 4 if count < 4000 else 16
    state = {'next': 0, 'viol': None, 'error': None, 'n': 0}
    keys, samples = [], []
    agg = {'runs': 0, 'simtime': 0.0, 'fired': {}, 'hashes': set(),
           'states': set(), 'ops': 0, 'preempt': 0, 'switches': 0,
           'notes': {}}
    lock = threading.Lock()
    known = known_findings(prop)
    seen_known = {}
    started = time.time()
    grace = 60 if tier == 'quick' else 120

    def body():
        try:
            w = Worker(prop)
        except OSError as e:
            state['error'] = str(e)
            return
        try:
            while True:
                with lock:
                    a = state['next']
                    if a >= count or state['error'] or \
                            state['viol'] is not None or time.time() > until:
                        return
                    b = min(count, a + batch)
                    state['next'] = b
                while a < b:
                    r = w.ask(do='seeds', **{'from': a, 'to': b},
                              seed=seed, tier=tier, until=until + grace)
                    v = r['violation']
                    with lock:
                        keys.extend(r['keys'])
                        samples.extend(r['samples'])
                        state['n'] += r['n']
                        s = r['stats']
                        for k in ('runs', 'simtime', 'ops', 'preempt',
                                  'switches'):
                            agg[k] += s[k]
                        for k in ('fired', 'notes'):
                            for x, y in s[k].items():
                                agg[k][x] = agg[k].get(x, 0) + y
                        agg['hashes'].update(s['hashes'])
                        agg['states'].update(s['states'])
                        if v is None:
                            break
                        f = next((f for f in known if matches(f, v)), None)
                        if f is not None:
                            seen_known[f['id']] = f
                            a = v['index'] + 1
                            continue
                        if state['viol'] is None or \
                                v['index'] < state['viol']['index']:
                            state['viol'] = v
                        break
        except HarnessError as e:
            with lock:
                state['error'] = state['error'] or str(e)
        finally:
            w.close()

    ts = [threading.Thread(target=body) for _ in range(jobs())]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    wall = time.time() - started
    return state, keys, samples, agg, wall, seen_known


def confirm(prop, scenario, cls):
    """Re-executes a violating scenario in fresh interpreters."""
    for _ in range(3):
        w = Worker(prop)
        try:
            v = w.ask(do='try', scenario=scenario)['violation']
        finally:
            w.close()
        if v is not None:
            return v
    return None


def report(prop, viol, tier, seed):
    """Shrink a violation, write its replay file and announce it."""
    w = Worker(prop)
    try:
        r = w.ask(do='shrink', scenario=viol['scenario'], cls=viol['cls'],
                  budget=3000, seconds=75 if tier == 'quick' else 150)
    except HarnessError:
        r = {'scenario': viol['scenario'], 'tries': 0}
    finally:
        w.close()
    v = confirm(prop, r['scenario'], viol['cls'])
    if v is None:
        r['scenario'] = viol['scenario']
        v = viol
    d = os.path.join(ROOT, 'out', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{seed}-{viol["index"]}.json')
    with open(path, 'w', encoding='utf-8') as f:
        json.dump({'property': prop, 'seed': seed, 'index': viol['index'],
                   'violation': v['cls'], 'message': v['msg'],
                   'shrink_tries': r['tries'], 'scenario': r['scenario']},
                  f, indent=1, ensure_ascii=True)
        f.write('\n')
    rel = os.path.relpath(path, ROOT)
    print(f'{v["cls"]}: {v["msg"][:1500]}')
    print(f'VIOLATION property={prop} replay={rel}')


ASSUMPTIONS = [
    'the scratch file system itself honours what the simulated operations '
    'ask (rename is atomic, a byte written is the byte read)',
    'after a power cut, synced file data survives; unsynced data survives '
    'whole, as a prefix, as the old data or not at all; directory operations '
    'survive in order up to some point',
    'listing directories and stat do not fail',
    'polib, md4c and md_ulb_pwrap are exercised as installed, their own '
    'defects on constructs the generator leaves out are not claimed',
]


def evidence(prop, mod, tier, seed, count, state, keys, samples, agg, wall,
             violated):
    distinct = len(set(map(str, keys)))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'wall_s': round(wall, 1), 'violations': 1 if violated else 0,
        'assumptions': ASSUMPTIONS + list(getattr(mod, 'ASSUMES', ())),
        'coverage': {
            'evaluations': state['n'],
            'distinct_nontrivial': distinct,
            'rule': mod.RULE,
            'samples': samples[:3],
            'planned_evaluations': count,
            'simulated_runs': agg['runs'],
            'runs_per_hour': round(agg['runs'] / max(wall, 1e-9) * 3600),
            'seeds_per_hour': round(state['n'] / max(wall, 1e-9) * 3600),
            'simulated_seconds': round(agg['simtime'], 3),
            'io_operations': agg['ops'],
            'faults_injected': dict(sorted(agg['fired'].items())),
            'distinct_histories': len(agg['hashes']),
            'distinct_histories_measure':
                'distinct operation logs of single node runs and distinct '
                'schedules of concurrent ones',
            'distinct_states': len(agg['states']),
            'distinct_states_measure': 'distinct contents of all project '
                                       'files after a run',
            'thread_preemptions': agg['preempt'],
            'process_switches': agg['switches'],
            'counters': dict(sorted(agg['notes'].items())),
            'real_components': [
                'mdpo (all of src/mdpo from /repo)', 'polib', 'md4c',
                'md_ulb_pwrap', 'argparse',
                'file contents (on a memory file system)'],
            'stub_components': [
                'outcome, size and order of every file operation', 'clock',
                'pid', 'randomness', 'directory order', 'locale encoding',
                'stdin, stdout and stderr', 'process kill and power loss',
                'scheduling of processes and threads'],
        },
    }
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f'{prop}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def check(prop, tier, seed, count=None):
    mod = importlib.import_module(f'props.{prop.lower()}')
    count = count or mod.COUNTS[tier]
    t0 = time.time()
    known = known_findings(prop)
    for f in known:
        with open(os.path.join(ROOT, f['replay']), encoding='utf-8') as fh:
            sc = json.load(fh)['scenario']
        v = confirm(prop, sc, f['cls'])
        if v is not None and matches(f, v):
            print(f'KNOWN-FINDING: property={prop} {f["what"]}')
    start, unrepro = 0, 0
    state, keys, samples, agg, wall, _ = search(
        prop, tier, seed, count, t0 + GUARD[tier])
    viol = state['viol']
    if state['error'] and viol is None:
        print(f'ERROR {prop}: {state["error"]}', file=sys.stderr)
        return 2
    if viol is not None:
        v = confirm(prop, viol['scenario'], viol['cls'])
        if v is None:
            agg['notes']['unreproduced'] = 1
            print(f'note: not reproduced, ignored: {viol["cls"]}: '
                  f'{viol["msg"][:300]}', file=sys.stderr)
            viol = None
        else:
            viol['cls'], viol['msg'] = v['cls'], v['msg']
            if v.get('fix'):
                viol['scenario'] = v['fix']
    evidence(prop, mod, tier, seed, count, state, keys, samples, agg, wall,
             viol)
    if viol is not None:
        report(prop, viol, tier, seed)
        return 1
    print(f'{prop}: held in {state["n"]} scenarios, {agg["runs"]} simulated '
          f'runs, {sum(agg["fired"].values())} faults, {wall:.0f} s')
    return 0


def replay(path):
    with open(path, encoding='utf-8') as f:
        d = json.load(f)
    v = None
    w = Worker(d['property'])
    try:
        v = w.ask(do='try', scenario=d['scenario'])['violation']
    finally:
        w.close()
    if v is None:
        print('not reproduced')
        return 0
    print(f'{v["cls"]}: {v["msg"][:1500]}')
    print(f'VIOLATION property={d["property"]} replay={path}')
    return 1


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('prop')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    c.add_argument('--seed', type=int,
                   default=int(os.environ.get('VERIF_SEED') or 1))
    c.add_argument('--count', type=int)
    r = sub.add_parser('replay')
    r.add_argument('file')
    sub.add_parser('selftest')
    a = ap.parse_args()
    try:
        if a.cmd == 'check':
            return check(a.prop, a.tier, a.seed, a.count)
        if a.cmd == 'replay':
            return replay(a.file)
        import selftest
        return selftest.main()
    except HarnessError as e:
        print(f'ERROR {e}', file=sys.stderr)
        return 2


if __name__ == '__main__':
    sys.exit(main())
