"""Histories: people's steps and mdpo runs one after another on one project."""

import re

import engine
import project as pj
from engine import Invalid, Violation


class Hist:
    def __init__(self, ctx, sc):
        self.ctx = ctx
        self.sc = sc
        self.docs = {p: s['doc'] for p, s in sc['world'].items()
                     if 'doc' in s}
        for d in self.docs.values():
            if not pj.dm.valid(d):
                raise Invalid('document')
        self.state = pj.build(sc['world'])
        self.key = []
        self.runs = 0

    def human(self, step):
        if step['op'] == 'write' and 'doc' in step['file']:
            if not pj.dm.valid(step['file']['doc']):
                raise Invalid('document')
            self.docs[step['path']] = step['file']['doc']
        elif step['op'] == 'write':
            self.docs.pop(step['path'], None)
        elif step['op'] == 'delete':
            self.docs.pop(step['path'], None)
        elif step['op'] == 'move' and step['path'] in self.docs:
            self.docs[step['to']] = self.docs.pop(step['path'])
        pj.apply(self.state, step)

    def sources(self, call, modelled=True):
        """Source paths of a call, in order; Invalid when there are none."""
        a = call['args']
        if 'stdin' in call:
            return []
        src = a['src']
        out = pj.sources_of(src, self.state)
        if not out:
            raise Invalid('no sources')
        for s in [src] if isinstance(src, str) else src:
            if not any(c in s for c in '*?[') and s not in out:
                raise Invalid('missing source')
        ig = a.get('ignore') or ()
        out = [p for p in out if not ignored(p, ig)]
        for p in out:
            if modelled and p not in self.docs:
                raise Invalid('source is no document')
        return out

    def messages(self, call, path=None):
        """Messages an extraction call must find, first occurrences."""
        a = call['args']
        paths = self.sources(call) if path is None else [path]
        ign = list(a.get('ignore_msgids') or ())
        f = a.get('ignore_msgids_file')
        if f is not None:
            if self.state.get(f) is None:
                raise Invalid('no ignore file')
            ign += self.state[f].decode(a.get('po_encoding')
                                        or 'utf-8').splitlines()
        return pj.dm.extraction([self.docs[p] for p in paths],
                                bool(a.get('include_codeblocks')), ign,
                                bool(a.get('plaintext')))

    def run(self, step):
        pre = self.state
        check_declared(step['call'], pre)
        # no two runs get the same random numbers from the system
        self.runs += 1
        env = dict(step.get('env') or {})
        env['rng'] = env.get('rng', 0) * 1000 + self.runs
        res, post = self.ctx.run(pre, step['call'], env,
                                 step.get('plan') or ())
        if res.how == 'hang' or res.how == 'runaway':
            raise Violation('no-end', f'{step["call"]["tool"]} does not end '
                            f'({res.how})')
        self.state = post
        c = step['call']
        self.key.append((c['tool'], c['via'], c['args'].get('mode'),
                         res.how, tuple((f[0], f[2]) for f in res.fired),
                         engine.state_hash(post)))
        return pre, res, post


def ignored(path, ignore):
    parts = path.split('/')
    return (parts[-1] in ignore or path in ignore or
            (len(parts) > 1 and (parts[-2] in ignore or
                                 '/'.join(parts[:-1]) in ignore)))


def po_enc(call):
    return call['args'].get('po_encoding') or call.get('enc') or 'utf-8'


def header_charset(b):
    """The charset that the header of a PO file declares."""
    b = b.replace(b'\r\n', b'\n')
    m = re.search(rb'^msgid ""\nmsgstr ((?:"[^\n]*"\n)+)', b, re.M)
    fields = m.group(1).replace(b'"\n"', b'') if m else b''
    m = re.search(rb'Content-Type:[^\\]+? charset=([\w-]+)', fields)
    return m.group(1).decode().lower() if m else 'utf-8'


def check_declared(call, state):
    """A call without encoding needs a PO file that declares it, or
    metadata that do so for the file that it creates."""
    b = state.get('locale/es.po')
    a = call['args']
    if a.get('po_encoding') or call['tool'] == 'md2po2md':
        return
    want = call.get('enc', 'utf-8')
    if b is not None:
        if header_charset(b) != want:
            raise Invalid('undeclared encoding')
        try:
            b.decode(want)
        except UnicodeDecodeError:
            raise Invalid('wrong encoding') from None
    meta = (a.get('metadata') or {}).get('Content-Type')
    if call['tool'] == 'md2po' and (b is None or meta):
        m = re.search(r' charset=([\w-]+)', meta or '')
        if (m.group(1).lower() if m else 'utf-8') != want:
            raise Invalid('undeclared encoding')


def load_po(state, path, enc, what):
    """Entries and header of a PO file of a state; [] when absent."""
    b = state.get(path)
    if b is None:
        return [], pj.Head()
    try:
        return pj.read_po(b, enc)
    except pj.BadPo as e:
        raise Violation('unreadable-po', f'{path} {what}: {e}') from None


def pairs(h, call):
    """(source or None, po path, md path or None) a saving call writes."""
    a = call['args']
    if call['tool'] == 'md2po':
        return [(None, a['po'], None)]
    if call['tool'] == 'md2po2md':
        out = []
        for src in h.sources(call):
            for _, po, md in pj.md2po2md_files(a, src):
                out.append((src, po, md))
        return out
    return []


def separate(a, src, po, md, v1='api', v2='api'):
    """The md2po and po2md calls that a md2po2md call stands for."""
    e = {'src': src, 'po': po, 'save': True,
         'wrapwidth': a.get('po_wrapwidth', 78)}
    t = {'src': src, 'pofiles': [po], 'save': md,
         'wrapwidth': a.get('md_wrapwidth', 80)}
    for k in ('aliases', 'po_encoding', 'md_encoding', 'extensions'):
        if k in a:
            e[k] = t[k] = a[k]
    for k in ('location', 'include_codeblocks'):
        if k in a:
            e[k] = a[k]
    if 'mode' in a:
        e['mode'] = a['mode']
    if 'extensions' in a:
        v2 = 'api'
    return ({'tool': 'md2po', 'via': v1, 'args': e},
            {'tool': 'po2md', 'via': v2, 'args': t})


# -- generation ---------------------------------------------------------------

def ignore_setup(rng, g, world):
    """Sometimes a list of messages to ignore; returns args by way of call."""
    if rng.random() > .15:
        return None
    ms = [m['id'] for m in pj.dm.extraction(g.docs.values())
          if '\n' not in m['id']]
    if not ms:
        return None
    ids = rng.sample(ms, min(len(ms), rng.choice([1, 2, 3])))
    g.declared = False
    world['ign.txt'] = {'text': '\n'.join(ids) + '\n',
                        'enc': g.po_enc or 'utf-8'}
    return ids


def extract_call(rng, g, ids, **over):
    c = g.md2po(**over)
    if ids:
        if c['via'] == 'api':
            c['args']['ignore_msgids'] = ids
        else:
            c['args']['ignore_msgids_file'] = 'ign.txt'
    return c


def human_steps(rng, g, pos, share=.6):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < .45:
            out.append(g.edit())
        elif r < .9 or len(g.paths) < 2 or \
                not all(p.startswith('docs/') and p.count('/') == 1
                        for p in g.paths):
            out.append(g.translation(rng.choice(pos), share))
        else:
            g.globbed = True
            p = rng.choice(g.paths)
            if rng.random() < .5:
                g.paths = [x for x in g.paths if x != p]
                g.docs.pop(p)
                out.append({'op': 'delete', 'path': p})
            else:
                to = rng.choice([x for x in pj.SOURCES
                                 if x.startswith('docs/')
                                 and x.count('/') == 1])
                if to not in g.paths:
                    g.paths = sorted([x for x in g.paths if x != p] + [to])
                    g.docs[to] = g.docs.pop(p)
                    g.past[to] = g.past.pop(p)
                    out.append({'op': 'move', 'path': p, 'to': to})
    return out


def run_step(rng, call, fault=0, kinds='all'):
    s = {'op': 'run', 'call': call, 'env': pj.random_env(rng)}
    if fault and rng.random() < fault:
        s['plan'] = [pj.blind_fault(rng, kinds)]
        s['env']['power_seed'] = rng.randrange(1 << 20)
    return s


def all_sources(g):
    if getattr(g, 'globbed', False):
        return 'docs/*.md'
    return None


def gen_single(rng, g, n, fault=0, kinds='all', translate=False, check=True,
               plaintext=False):
    """md2po (and po2md) on one PO file."""
    world = g.world()
    ids = ignore_setup(rng, g, world)
    po = 'locale/es.po'
    if rng.random() < .2:
        world['lnk.po'] = {'link': 'locale/es.po'}
        po = 'lnk.po'
    steps = []
    for i in range(n):
        if i:
            steps += human_steps(rng, g, ['locale/es.po'])
        src = all_sources(g)
        if src is None and i and rng.random() < .1 and len(g.paths) > 1:
            src = rng.sample(g.paths, len(g.paths) - 1)
        over = {'mo': None} if po == 'lnk.po' and not i else {}
        if plaintext:
            over['plaintext'] = True
        steps.append(run_step(rng, extract_call(
            rng, g, ids, po=po, src=src, **over), fault, kinds))
        if translate:
            if rng.random() < .7:
                steps += human_steps(rng, g, ['locale/es.po'], .9)
            for p in g.paths:
                if rng.random() < .6:
                    steps.append(run_step(rng, g.po2md(
                        p, [po], rng.choice([None, 'out/' + p.replace(
                            '/', '_')])), fault, kinds))
    return {'world': world, 'steps': steps}


def gen_multi(rng, g, n, fault=0, kinds='all'):
    """md2po2md runs over a set of sources and languages."""
    world = g.world()
    base = g.md2po2md()
    steps = []
    for i in range(n):
        pos = [po for p in g.paths for _, po, _ in
               pj.md2po2md_files(base['args'], p)]
        if i:
            steps += human_steps(rng, g, pos)
            steps.append(g.translation(rng.choice(pos), .9))
        c = g.md2po2md()
        c['args']['schema'] = base['args']['schema']
        c['args']['src'] = base['args']['src'] if not getattr(
            g, 'globbed', False) else 'docs/*.md'
        if rng.random() < .6:
            c['args']['langs'] = base['args']['langs']
        steps.append(run_step(rng, c, fault, kinds))
    return {'world': world, 'steps': steps}
