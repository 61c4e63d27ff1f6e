"""Running scenarios: node runs on states, statistics, shrinking."""

import copy
import hashlib
import json
import os
import re
import time

import node as nodemod
import project

_mono = time.monotonic


ENV_FAULTS = (('chunk', 'short-reads'), ('wchunk', 'short-writes'),
              ('dirorder', 'directory-order'), ('jumps', 'clock-jumps'),
              ('locale', 'locale-encoding'), ('bufsize', 'small-buffers'),
              ('mtimes', 'file-dates'), ('grain', 'coarse-file-dates'))


class Ctx:
    """What a property check uses to run nodes; collects the evidence."""

    def __init__(self):
        self.scratch = nodemod.Scratch()
        self.companions = {}
        self.reset()

    def reset(self):
        self.stats = {'runs': 0, 'simtime': 0.0, 'fired': {}, 'hashes': set(),
                      'ops': 0, 'preempt': 0, 'switches': 0, 'states': set(),
                      'notes': {}}

    def note(self, name, n=1):
        d = self.stats['notes']
        d[name] = d.get(name, 0) + n

    def _account(self, res, env=None):
        s = self.stats
        s['runs'] += 1
        s['simtime'] += res.clock
        s['ops'] += res.ops
        for k, name in ENV_FAULTS:
            if env and env.get(k):
                name = f'environment:{name}'
                s['fired'][name] = s['fired'].get(name, 0) + 1
        for cls, _, eff, _ in res.fired:
            k = f'{cls}:{eff}'
            s['fired'][k] = s['fired'].get(k, 0) + 1
        h = hashlib.blake2b('\n'.join(res.log).encode(
            'utf-8', 'surrogatepass'), digest_size=8).hexdigest()
        s['hashes'].add(h)
        if res.how == 'hang':
            # never on purpose: recorded so that it is not lost
            self.note('hang')

    def run(self, state, prog, env=None, plan=(), companion=None):
        """Run one node on a copy of a state; returns result and new state."""
        if 'kind' not in prog:
            prog = {'kind': 'call', 'call': prog}
        env = dict(env or {})
        if project.is_power(plan):
            env['power'] = True
        w = self.scratch.world(state)
        try:
            if companion is not None:
                res = self.companion(companion).run(w, prog, env, plan)
            else:
                res = nodemod.run(w, prog, env, plan)
            post = nodemod.state(w)
        finally:
            self.scratch.drop(w)
        self._account(res, env)
        self.stats['states'].add(state_hash(post))
        return res, post

    def run_concurrent(self, state, progs, envs, plans, schedule):
        w = self.scratch.world(state)
        try:
            envs = [dict(e, power=True) if project.is_power(p) else e
                    for e, p in zip(envs, plans)]
            res, trace = nodemod.run_concurrent(
                w, [p if 'kind' in p else {'kind': 'call', 'call': p}
                    for p in progs], envs, plans, schedule)
            post = nodemod.state(w)
        finally:
            self.scratch.drop(w)
        for r, e in zip(res, envs):
            self._account(r, e)
        self.stats['hashes'].add(hashlib.blake2b(
            '\n'.join(trace).encode('utf-8', 'surrogatepass'),
            digest_size=8).hexdigest())
        return res, trace, post

    def companion(self, hashseed):
        c = self.companions.get(hashseed)
        if c is None:
            import companion
            c = self.companions[hashseed] = companion.Companion(hashseed)
        return c

    def close(self):
        for c in self.companions.values():
            c.close()
        self.scratch.close()


def state_hash(state):
    h = hashlib.blake2b(digest_size=8)
    for p in sorted(state):
        b = state[p]
        h.update(p.encode('utf-8', 'surrogateescape') + b'\0')
        h.update(b if b is not None else b'/')
        h.update(b'\1')
    return h.hexdigest()


class Violation(Exception):
    """A property does not hold; ``cls`` names the kind of failure."""

    def __init__(self, cls, msg, fix=None):
        super().__init__(f'{cls}: {msg}')
        self.cls = cls
        self.msg = msg
        self.fix = fix       # concrete scenario that shows it alone


class Invalid(Exception):
    """A scenario (of the minimiser) the model does not define."""


def ok(res):
    return res.how in ('ok', 'exit') and not (
        res.how == 'exit' and res.results[-1]['code'] not in (2, 3, 4, 5))


def brief(res):
    r = res.results[-1] if res.results else {}
    return {k: r.get(k) for k in ('how', 'code', 'exc')}


def expect_ok(res, call, what='run'):
    """A fault-free run on valid inputs must succeed."""
    if not ok(res):
        exc = (res.results[-1].get('exc') or ['exit'])[0] \
            if res.results else res.how
        raise Violation(f'unexpected-failure ({exc})',
                        f'{what} {call["tool"]} ({call["via"]}) failed: '
                        f'{brief(res)} {json.dumps(call["args"])[:400]}')


_STAMP = re.compile(r'\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d(\.\d+)?')


def printed(res, call):
    """What a run printed; times of debug lines are not compared."""
    out = res['out']
    return _STAMP.sub('(time)', out) if call['args'].get('debug') else out


def diff_states(a, b, limit=3):
    out = []
    for p in sorted(set(a) | set(b)):
        if a.get(p, 0) != b.get(p, 0):
            out.append(f'{p}: {show(a.get(p, 0))} != {show(b.get(p, 0))}')
    return '; '.join(out[:limit]) + (' ...' if len(out) > limit else '')


def show(b):
    if b == 0:
        return '(absent)'
    if b is None:
        return '(directory)'
    return f'{len(b)} bytes {b[-60:]!r}'


# -- shrinking --------------------------------------------------------------------

def shrink(scenario, test, budget, deadline):
    """Greedy structural minimisation of a JSON scenario.

    ``test(scenario)`` tells whether the same violation is still there.
    """
    best = scenario
    tries = 0
    progress = True
    while progress and tries < budget and _mono() < deadline:
        progress = False
        for cand in candidates(best):
            if not sound(cand):
                continue
            tries += 1
            if tries >= budget or _mono() >= deadline:
                break
            try:
                good = test(cand)
            except (nodemod.HarnessError, Invalid):
                good = False
            except (KeyError, IndexError, AssertionError, TypeError,
                    ValueError, AttributeError):
                good = False          # not a meaningful scenario any more
            if good:
                best = cand
                progress = True
                break
    return best, tries


PROTECT = {'prop', 'seed', 'kind'}


REQUIRED = {'md2po': ('src',), 'po2md': ('src', 'pofiles'),
            'mdpo2html': ('src', 'pofiles'),
            'md2po2md': ('src', 'langs', 'schema')}


def sound(x):
    """Whether every call of a shrunk scenario still has what it needs."""
    if isinstance(x, list):
        return all(map(sound, x))
    if not isinstance(x, dict):
        return True
    if 'tool' in x:
        a = x.get('args')
        if 'via' not in x or not isinstance(a, dict) or \
                not all(a.get(k) for k in REQUIRED[x['tool']]
                        if k != 'src' or 'stdin' not in x):
            return False
        if x['tool'] == 'md2po' and a.get('save') and not a.get('po'):
            return False
        if any(not v for v in (a.get('events') or {}).values()):
            return False
    if 'effect' in x or 'cls' in x or 'nth' in x:
        if not all(k in x for k in ('effect', 'cls', 'nth')):
            return False
    if x.get('op') == 'run' and 'call' not in x:
        return False
    return all(map(sound, x.values()))


def _size(x):
    return len(json.dumps(x))


def candidates(s):
    """Smaller scenarios, most ambitious first."""
    paths = []

    def walk(x, path):
        if isinstance(x, list):
            n = len(x)
            if n > 1:
                k = n // 2
                while k >= 1:
                    for i in range(0, n, k):
                        paths.append((_size(x[i:i + k]), 'cut', path, i, k))
                    k //= 2
            elif n == 1:
                paths.append((_size(x), 'cut', path, 0, 1))
            for i, y in enumerate(x):
                walk(y, path + (i,))
        elif isinstance(x, dict):
            for k, y in x.items():
                if path == () and k in PROTECT:
                    continue
                paths.append((_size(y) + len(k), 'del', path, k, 0))
                walk(y, path + (k,))
        elif isinstance(x, str) and len(x) > 12 and ' ' in x:
            paths.append((len(x) // 2, 'str', path, 0, 0))
    walk(s, ())
    paths.sort(key=lambda p: -p[0])
    for _, kind, path, a, b in paths:
        c = copy.deepcopy(s)
        t = c
        for k in path[:-1] if kind == 'str' else path:
            t = t[k]
        if kind == 'cut':
            del t[a:a + b]
        elif kind == 'del':
            del t[a]
        else:
            t[path[-1]] = t[path[-1]].split(' ')[0]
        yield c


def out_dir():
    d = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'out', 'replays')
    os.makedirs(d, exist_ok=True)
    return d
