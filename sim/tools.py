"""What a node runs: the real mdpo entry points, through CLI or API."""

import copy
import gc
import importlib
import json
import os
import signal
import sys
import threading
import types

import seam

MD2PO_CLI = {
    'ignore': ('-i', 'multi'), 'po': ('-p', 'val'), 'save': ('-s', 'flag'),
    'mo': ('--mo-filepath', 'val'), 'plaintext': ('--plaintext', 'flag'),
    'wrapwidth': ('-w', 'val'), 'xheader': ('-a', 'flag'),
    'po_encoding': ('--po-encoding', 'val'),
    'md_encoding': ('--md-encoding', 'val'),
    'include_codeblocks': ('-c', 'flag'),
    'debug': ('-D', 'flag'), 'check': ('--check', 'flag'),
    'quiet': ('-q', 'flag'), 'no_obsolete': ('--no-obsolete', 'flag'),
    'no_fuzzy': ('--no-fuzzy', 'flag'),
    'no_empty_msgstr': ('--no-empty-msgstr', 'flag'),
    'html_encoding': ('--html-encoding', 'val'),
    'ignore_msgids_file': ('--ignore-msgids', 'val'),
    'po_wrapwidth': ('--po-wrapwidth', 'val'),
    'md_wrapwidth': ('--md-wrapwidth', 'val'),
    'extensions': ('-x', 'multi'),
}


def argv_of(call):
    """Command line equivalent to a call description."""
    a = call['args']
    argv = []
    tool = call['tool']
    src = a.get('src')
    if src is not None:
        argv += [src] if isinstance(src, str) else list(src)
    if tool == 'md2po2md':
        for group in a['lang_groups'] if 'lang_groups' in a \
                else [a['langs']]:
            argv += ['-l', *group]
        argv += ['-o', a['schema']]
    if 'pofiles' in a:
        for group in a['po_groups'] if 'po_groups' in a else [a['pofiles']]:
            argv += ['-p', *group]
    mode = a.get('mode', 'mark')
    if mode == 'merge':
        argv.append('-m')
    elif mode == 'remove':
        argv.append('-r')
    if a.get('location') is False:
        argv.append('--no-location')
    for k, v in (a.get('aliases') or {}).items():
        argv += ['--command-alias', f'{k}:{v}']
    for k, v in (a.get('metadata') or {}).items():
        argv += ['-d', f'{k}: {v}']
    for k, v in (a.get('events') or {}).items():
        for x in v:
            argv += ['-e', f'{k}: {x}']
    for k, (opt, kind) in MD2PO_CLI.items():
        v = a.get(k)
        if v is None or v is False:
            continue
        if tool in ('po2md', 'mdpo2html') and k == 'save':
            argv += ['-s', v]
        elif kind == 'flag':
            argv.append(opt)
        elif kind == 'val':
            argv += [opt, str(v)]
        else:
            for x in v:
                argv += [opt, x]
    return argv


def entry_dict(e):
    return {
        'id': e.msgid, 'ctx': e.msgctxt, 'str': e.msgstr,
        'obsolete': bool(e.obsolete), 'flags': list(e.flags),
        'comment': e.comment or '', 'tcomment': e.tcomment or '',
        'occ': [list(o) for o in e.occurrences],
    }


class EventFailure(Exception):
    pass


class EventBaseFailure(BaseException):
    pass


RAISES = {
    'exc': lambda: EventFailure('callback failed'),
    'value': lambda: ValueError('callback failed'),
    'key': lambda: KeyError('callback failed'),
    'os': lambda: OSError(5, 'callback failed'),
    'unicode': lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'callback'),
    'runtime': lambda: RuntimeError('callback failed'),
    'stop': lambda: StopIteration('callback failed'),
    'type': lambda: TypeError('callback failed'),
    'attr': lambda: AttributeError('callback failed'),
    'memory': lambda: MemoryError('callback failed'),
    'interrupt': lambda: KeyboardInterrupt('callback failed'),
    'exit': lambda: SystemExit(7),
    'base': lambda: EventBaseFailure('callback failed'),
}


def _ev_repr(args):
    out = []
    for x in args:
        if isinstance(x, (str, int, float, type(None), list)):
            out.append(repr(x))
        elif hasattr(x, 'name'):
            out.append(x.name)
        elif isinstance(x, dict):
            out.append(repr(sorted((k, str(v)) for k, v in x.items())))
        else:
            out.append(type(x).__name__)
    return ','.join(out)


class Tracer:
    """Builds event callbacks and records their invocations."""

    def __init__(self):
        self.trace = []
        self.count = 0
        self.given = self.before = None

    def make(self, name, spec):
        kind = spec if isinstance(spec, str) else spec['kind']
        label = '' if isinstance(spec, str) else spec.get('label', '')
        state = {'n': 0}
        falsy = {'observe': None, 'zero': 0, 'empty': '', 'emptylist': [],
                 'true': True, 'zerof': 0.0}

        def callback(*args):
            self.trace.append(f'{name}{label}({_ev_repr(args[1:])})')
            n = state['n']
            state['n'] = n + 1
            if kind in falsy:
                return falsy[kind]
            if kind == 'raise':
                if n == spec['nth']:
                    raise RAISES[spec['exc']]()
                return None
            if kind == 'nest':
                if n == spec['nth']:
                    import sched
                    call = sched.nested_call if sched.SCHED else run_call
                    self.trace.append(['nested', call(spec['call'])])
                return None
            if kind == 'skip':
                return n not in spec['at']
            raise AssertionError(kind)
        return callback

    def events(self, spec):
        """{event: [behaviour, ...]} to {event: [callable or 'file::fn']}."""
        out = {}
        for name, items in spec.items():
            out[name] = [x if isinstance(x, str) and '::' in x
                         else self.make(name, x) for x in items]
        self.given = out
        self.before = {k: list(v) for k, v in out.items()}
        return out

    def changed(self):
        """Whether the mapping of events has been modified."""
        return self.given != self.before


def tag_of(tag, value):
    """Key of an argument object that several calls are given."""
    return f'{tag} {json.dumps(value, sort_keys=True)}'


def api_kwargs(call, tracer, shared=None):
    a = call['args']
    tool = call['tool']
    kw = {}

    def put(key, name=None):
        if a.get(key) is not None:
            v = a[key]
            if isinstance(v, (list, dict)) and shared is not None:
                tag = (call.get('share') or {}).get(key)
                if tag is not None:
                    v = shared.setdefault(tag_of(tag, v), v)
            kw[name or key] = v
    for k in ('ignore', 'wrapwidth', 'po_encoding', 'md_encoding',
              'html_encoding', 'include_codeblocks', 'xheader', 'metadata',
              'plaintext', 'location', 'msgstr', 'debug', 'po_wrapwidth',
              'md_wrapwidth', 'extensions', 'ignore_msgids'):
        put(k)
    put('aliases', 'command_aliases')
    if 'events' in a:
        kw['events'] = tracer.events(a['events'])
    if a.get('check'):
        kw['_check_saved_files_changed'] = True
    mode = a.get('mode', 'mark')
    if tool == 'md2po':
        put('po', 'po_filepath')
        put('save')
        put('mo', 'mo_filepath')
        if mode == 'merge':
            kw['mark_not_found_as_obsolete'] = False
        elif mode == 'remove':
            kw['preserve_not_found'] = False
    elif tool in ('po2md', 'mdpo2html'):
        put('save')
    else:
        if mode == 'merge':
            kw['md2po_kwargs'] = {'mark_not_found_as_obsolete': False}
        elif mode == 'remove':
            kw['md2po_kwargs'] = {'preserve_not_found': False}
        for g in ('no_obsolete', 'no_fuzzy', 'no_empty_msgstr'):
            if a.get(g):
                kw[g] = True
    for k, v in (a.get('kw') or {}).items():
        if isinstance(v, dict):
            kw.setdefault(k, {}).update(copy.deepcopy(v))
        else:
            kw[k] = copy.deepcopy(v)
    if shared is not None:
        shared.setdefault('_kw', []).append(kw)
    return kw


def run_api(call, tracer, shared=None):
    import mdpo
    a = call['args']
    kw = api_kwargs(call, tracer, shared)
    tool = call['tool']
    if tool == 'md2po':
        from mdpo.md2po import markdown_to_pofile
        pofile = markdown_to_pofile(a['src'], **kw)
        return {'text': str(pofile), 'metadata': dict(pofile.metadata),
                'entries': [entry_dict(e) for e in pofile]}
    if tool == 'po2md':
        from mdpo.po2md import pofile_to_markdown
        return {'text': pofile_to_markdown(a['src'], a['pofiles'], **kw)}
    if tool == 'mdpo2html':
        from mdpo.mdpo2html import markdown_pofile_to_html
        return {'text': markdown_pofile_to_html(a['src'], a['pofiles'], **kw)}
    if tool == 'md2po2md':
        from mdpo.md2po2md import markdown_to_pofile_to_markdown
        r = markdown_to_pofile_to_markdown(a['langs'], a['src'], a['schema'],
                                           **kw)
        return {'tuple': [list(x) if isinstance(x, (list, tuple)) else x
                          for x in r]}
    raise AssertionError(tool)


class FakeArgv:
    def __init__(self, call):
        self.call = call

    def __enter__(self):
        self.old = sys.argv
        sys.argv = [self.call['tool'], *argv_of(self.call)]

    def __exit__(self, *a):
        sys.argv = self.old


def run_call(call, shared=None):
    """Run one tool invocation in this node; never raises."""
    tracer = Tracer()
    io_old = (sys.stdin, sys.stdout, sys.stderr)
    out, err = seam.SimStream('stdout'), seam.SimStream('stderr')
    stdin = call.get('stdin')
    inp = seam.SimStdin(stdin or '', stdin is None, call.get('chunk'))
    sys.stdin, sys.stdout, sys.stderr = inp, out, err
    res = {'how': 'ok', 'code': 0, 'exc': None, 'value': None}
    seam.NODE.note('call', call['tool'], call['via'])
    cwd = os.getcwd()
    if call.get('cwd'):
        os.chdir(call['cwd'])
    moved = os.getcwd()
    try:
        if call['via'] == 'api':
            res['value'] = run_api(call, tracer, shared)
        elif call['via'] == 'run':
            # in-process use of the command line entry point
            mod = importlib.import_module(f'mdpo.{call["tool"]}.__main__')
            r = mod.run(args=argv_of(call))
            if isinstance(r, tuple):
                res['value'] = {'text': str(r[0])}
                res['code'] = r[1]
            else:
                res['code'] = r
        else:
            mod = importlib.import_module(f'mdpo.{call["tool"]}.__main__')
            with FakeArgv(call):
                mod.main()
    except SystemExit as e:
        code = e.code
        if code is None:
            code = 0
        elif not isinstance(code, int):
            code = 1
        res['code'] = code
        if call['via'] == 'api':
            res['how'] = 'exc'
            res['exc'] = ['SystemExit', str(e)]
        else:
            res['how'] = 'ok' if code == 0 else 'exit'
    except BaseException as e:  # noqa: BLE001
        res['how'] = 'exc'
        res['code'] = 1
        res['exc'] = [type(e).__name__, str(e).replace(
            seam.NODE.world + os.sep, '')[:500]]
        e.__traceback__ = None
        tb = None  # noqa: F841
    else:
        if call['via'] != 'api' and res['code'] != 0:
            res['how'] = 'exit'
    finally:
        replaced = (sys.stdin is not inp, sys.stdout is not out,
                    sys.stderr is not err)
        sys.stdin, sys.stdout, sys.stderr = io_old
        if os.getcwd() == moved:
            os.chdir(cwd)
    if any(replaced):
        res['streams_replaced'] = True
    if tracer.changed():
        res['events_changed'] = True
    res['out'] = out.getvalue()
    res['err'] = err.getvalue()
    if call.get('event_module'):
        m = sys.modules.get('simtrace')
        if m is not None:
            tracer.trace = tracer.trace + list(m.T)
            m.T.clear()
    res['trace'] = tracer.trace
    return res


def simtrace_module():
    m = types.ModuleType('simtrace')
    m.T = []
    sys.modules['simtrace'] = m
    return m


def fd_list():
    out = []
    for x in seam.REAL['listdir']('/proc/self/fd'):
        try:
            t = os.readlink(f'/proc/self/fd/{x}')
        except OSError:
            continue
        if t.startswith('/proc/'):
            continue
        out.append(t)
    return sorted(out)


def snapshot():
    """State of the process a call must not change."""
    gc.collect()
    return {
        'environ': dict(os.environ), 'cwd': os.getcwd(), 'fds': fd_list(),
        'streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'argv': list(sys.argv), 'path': list(sys.path),
        'reclimit': sys.getrecursionlimit(), 'umask': umask(),
        'handlers': [repr(signal.getsignal(x)) for x in (
            signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)],
        'threads': threading.active_count(),
        'hooks': [repr(sys.excepthook), repr(sys.displayhook)],
    }


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def run_program(prog):
    """A node's program: one call, or several in one process."""
    kind = prog['kind']
    if kind == 'call':
        return [run_call(prog['call'])]
    if kind == 'sequence':
        return run_sequence(prog)
    if kind == 'threads':
        import sched
        return sched.run_threads(prog)
    raise AssertionError(kind)


def run_sequence(prog):
    """Calls one after another in one process (residue checks)."""
    import copy
    shared = {}
    results = []
    node = seam.NODE
    base = None
    for i, call in enumerate(prog['calls']):
        for step in call.get('before', ()):
            apply_edit(step)
        for f in node.plan:
            f['done'] = f.get('call') != i
            f['seen'] = 0
        call = copy.deepcopy(call)
        s0 = quietly(snapshot)
        shared['_kw'] = []
        tags0 = {k: copy.deepcopy(v) for k, v in shared.items()
                 if not k.startswith('_')}
        args0 = copy.deepcopy(call['args'])
        r = run_call(call, shared)
        s1 = quietly(snapshot)
        residue = []
        for k in s0:
            if s0[k] != s1[k]:
                a, b = s0[k], s1[k]
                if k == 'environ':
                    a = {x: v for x, v in s0[k].items() if b.get(x) != v}
                    b = {x: v for x, v in s1[k].items()
                         if s0[k].get(x) != v}
                residue.append(f'{k}: {a!r} -> {b!r}')
        for k, v in tags0.items():
            if shared.get(k) != v:
                residue.append(f'argument {k}: {v!r} -> {shared[k]!r}')
        if call['args'] != args0:
            for k in args0:
                if call['args'].get(k) != args0[k]:
                    residue.append(f'argument {k}: {args0[k]!r} -> '
                                   f'{call["args"].get(k)!r}')
        if r.pop('streams_replaced', None):
            residue.append('standard streams replaced')
        if r.pop('events_changed', None):
            residue.append('argument events modified')
        r['residue'] = residue
        r['state'] = quietly(lambda: seam.world_state('.'))
        results.append(r)
        if base is None:
            base = s0
    return results


def quietly(f):
    """Look at the process without taking part in the simulation."""
    node = seam.NODE
    was, node.active = node.active, False
    try:
        return f()
    finally:
        node.active = was


def apply_edit(step):
    """A scenario edit made from inside the node (not part of the tool)."""
    node = seam.NODE
    was, node.active = node.active, False
    try:
        if step['op'] == 'write':
            data = bytes.fromhex(step['hex'])
            d = os.path.dirname(step['path'])
            if d:
                os.makedirs(d, exist_ok=True)
            with open(step['path'], 'wb') as f:
                f.write(data)
            if node is not None:
                node.stamp(step['path'])
        elif step['op'] == 'delete' and os.path.lexists(step['path']):
            os.unlink(step['path'])
    finally:
        node.active = was
