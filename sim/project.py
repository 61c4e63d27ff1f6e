"""Projects: what a scenario's world holds and how people change it.

A scenario is plain JSON.  ``build`` turns its world into bytes, ``apply``
performs the steps of authors and translators (not of mdpo).  All of it is
harness code: polib is used here only to write the files a translator's editor
would write.
"""

import copy
import random
import re
import zlib

import polib

import docmodel as dm
import node as nodemod
import wild as wildmod

# -- building ------------------------------------------------------------------


def po_entry(spec):
    e = polib.POEntry(
        msgid=spec['id'], msgstr=spec.get('str', ''),
        msgctxt=spec.get('ctx'), obsolete=bool(spec.get('obsolete')),
        flags=list(spec.get('flags', ())), tcomment=spec.get('tc', ''),
        comment=spec.get('c', ''))
    if spec.get('prev'):
        e.previous_msgid = spec['prev']
    if spec.get('plural'):
        e.msgid_plural = spec['plural']
        e.msgstr = ''
        e.msgstr_plural = {int(k): v for k, v in spec['plurals'].items()}
    if spec.get('occ'):
        e.occurrences = [tuple(o) for o in spec['occ']]
    return e


def po_bytes(spec):
    f = polib.POFile(wrapwidth=spec.get('wrap', 78),
                     encoding=spec.get('enc', 'utf-8'))
    f.metadata = dict(spec.get('header') or {})
    f.header = spec.get('intro') or ''
    f.metadata_is_fuzzy = bool(spec.get('intro_fuzzy'))
    for e in spec['entries']:
        f.append(po_entry(e))
    return relaid(str(f), spec).encode(spec.get('enc', 'utf-8'))


def relaid(text, spec):
    """The text of a PO file as other programs and people lay it out."""
    if spec.get('compact'):     # entries not separated by empty lines
        head, sep, rest = text.partition('\n\n')
        text = head + sep + re.sub(r'\n\n+', '\n', rest)
    if spec.get('crlf'):
        text = text.replace('\n', '\r\n')
    return text


def file_bytes(spec):
    """Bytes of one file of a world description."""
    if 'doc' in spec:
        text = dm.markdown(spec['doc']) + spec.get('tail', '')
        if spec.get('crlf'):
            text = text.replace('\n', '\r\n')
        return text.encode(spec.get('enc', 'utf-8'))
    if 'html' in spec:
        return published(spec, raw_html(dm.markdown(spec['html']))).encode(
            spec.get('enc', 'utf-8'))
    if 'po' in spec:
        return po_bytes(spec['po'])
    if 'text' in spec:
        return spec['text'].encode(spec.get('enc', 'utf-8'))
    if 'hex' in spec:
        return bytes.fromhex(spec['hex'])
    if 'link' in spec:
        return b'->' + spec['link'].encode()
    if 'dir' in spec:
        return None
    raise AssertionError(spec)


def raw_html(md):
    """HTML of a Markdown document, as a site builder would produce."""
    import md4c
    if dm._PARSED is not None:
        dm._PARSED.append(md)
    return md4c.HTMLRenderer(0, tables=True, tasklists=True).parse(md)


def published(spec, body):
    """A whole page with a rendered document."""
    if spec.get('page') is None:
        return body
    head, tail = dm.PAGES[spec['page']]
    return head + body + tail


def build(world):
    state = {'locale/': None, 'out/': None}
    for path, spec in world.items():
        b = file_bytes(spec)
        if b is None:
            state[path.rstrip('/') + '/'] = None
        else:
            state[path] = b
            add_dirs(state, path)
    return state


def add_dirs(state, path):
    parts = path.split('/')[:-1]
    for i in range(len(parts)):
        state.setdefault('/'.join(parts[:i + 1]) + '/', None)


def valid_world(world):
    return all(dm.valid(s.get('doc') or s.get('html')) for s in world.values()
               if 'doc' in s or 'html' in s)


# -- reading PO files --------------------------------------------------------

ODD = ('\u2028', '\x85', '\x0c', '\xa0', '\u200b', '\U0001d11e', '\u3000')


class Lines(str):
    """Text that polib splits in lines as it does with a file."""

    def __new__(cls, text):
        return super().__new__(
            cls, text.replace('\r\n', '\n').replace('\r', '\n') + '\n')

    def splitlines(self, keepends=False):
        return self.split('\n')[:-1]


class BadPo(Exception):
    pass


class Head(dict):
    """Fields of the header of a PO file, with its comment and mark."""

    intro = ('', False)


def read_po(data, enc='utf-8'):
    """Entries of PO bytes: list of dicts in file order, plus the header."""
    try:
        text = data.decode(enc)
    except UnicodeDecodeError as e:
        raise BadPo(f'not {enc}: {e}') from None
    if text and not text.strip():
        return [], Head()
    try:
        f = polib.pofile(Lines(text)) \
            if text else polib.POFile()
    except (OSError, UnicodeDecodeError, ValueError) as e:
        raise BadPo(str(e)) from None
    out = []
    for e in f:
        out.append({
            'key': (e.msgid, e.msgctxt or None), 'id': e.msgid,
            'ctx': e.msgctxt or None, 'str': e.msgstr,
            'obsolete': bool(e.obsolete), 'fuzzy': 'fuzzy' in e.flags,
            'flags': sorted(e.flags), 'tc': ' '.join(e.tcomment.split()),
            'c': ' '.join(e.comment.split()),
            'plural': e.msgid_plural or None,
            'plurals': dict(e.msgstr_plural) if e.msgid_plural else None,
            'prev': (e.previous_msgctxt, e.previous_msgid,
                     e.previous_msgid_plural),
            'occ': [tuple(o) for o in e.occurrences],
            'line': e.linenum,
        })
    head = Head(f.metadata)
    head.intro = (f.header.strip(), bool(f.metadata_is_fuzzy))
    return out, head


# -- people ------------------------------------------------------------------

def text_for(msgid, text):
    """A translation that is valid where this message stands."""
    if msgid.startswith('[') and ']: ' in msgid:
        return msgid.replace('https://r.org', 'https://tr.org')
    if msgid.endswith('\n'):
        w = ''.join(c for c in text.split()[0] if c.isalnum())
        return f'{w} = 1\ny\n'
    refs = re.findall(r'\[(r[qxyz]\d+)\]', msgid)
    if refs and zlib.crc32(text.encode()) % 2:
        text += ' ' + ' '.join(f'[in u][{r}]' if n % 2 else
                               f'[{r}]' for n, r in enumerate(refs, len(text)))
    return text


def translate(data, step):
    """A translator's editor loads the PO, changes it and saves it."""
    enc = step.get('enc', 'utf-8')
    text = data.decode(enc)
    f = polib.pofile(Lines(text),
                     wrapwidth=step.get('wrap', 78)) \
        if text.strip() else polib.POFile(wrapwidth=step.get('wrap', 78))
    f.encoding = enc
    for ed in step['edits']:
        if 'header' in ed:
            f.metadata.update(ed['header'])
            if 'intro' in ed:
                f.header = ed['intro']
            if 'intro_fuzzy' in ed:
                f.metadata_is_fuzzy = ed['intro_fuzzy']
            continue
        if 'add' in ed:
            e = po_entry(ed['add'])
            if f.find(e.msgid, include_obsolete_entries=True,
                      msgctxt=e.msgctxt or False) is None:
                f.append(e)
            continue
        if not len(f):
            continue
        e = f[ed['sel'] % len(f)]
        if e.msgid_plural:
            continue
        same = [x for x in f if x.msgid == e.msgid
                and (x.msgctxt or None) == (e.msgctxt or None)]
        for x in same:
            if 'set' in ed:
                x.msgstr = text_for(x.msgid, ed['set']) if ed['set'] else ''
            if 'fuzzy' in ed:
                if ed['fuzzy'] and 'fuzzy' not in x.flags and x.msgstr:
                    x.flags.append('fuzzy')
                elif not ed['fuzzy'] and 'fuzzy' in x.flags:
                    x.flags.remove('fuzzy')
            if not x.msgstr and 'fuzzy' in x.flags:
                x.flags.remove('fuzzy')
            if 'tc' in ed:
                x.tcomment = ed['tc']
            if 'flag' in ed and ed['flag'] not in x.flags:
                x.flags.append(ed['flag'])
            if 'prev' in ed and not x.obsolete:
                x.previous_msgid = ed['prev']
                x.previous_msgctxt = ed.get('prevctx')
    return relaid(str(f), step).encode(enc)


def apply(state, step):
    """Apply a human step to a state (in place)."""
    op = step['op']
    if op == 'write':
        state[step['path']] = file_bytes(step['file'])
        add_dirs(state, step['path'])
    elif op == 'delete':
        state.pop(step['path'], None)
    elif op == 'move':
        if step['path'] in state:
            state[step['to']] = state.pop(step['path'])
            add_dirs(state, step['to'])
    elif op == 'translate':
        if state.get(step['path']) is not None:
            try:
                state[step['path']] = translate(state[step['path']], step)
            except (OSError, UnicodeError):
                pass
    else:
        raise AssertionError(op)


# -- generation -----------------------------------------------------------------

SOURCES = ['docs/a.md', 'docs/b.md', 'docs/c.md', 'docs/10.md', 'docs/9.md',
           'docs/B.md', 'docs/sub/a.md', 'README.md', 'docs/ünï.md',
           'docs/[x].md', 'docs/v1.0.md', 'docs/v1.1.md', 'docs/my notes.md',
           'guide/a.md', 'guide/9.md']
LANGS = ['es', 'fr', 'de', 'pt_BR', 'it']


class ProjGen:
    """Generates the sources of a project, their edits and tool calls."""

    def __init__(self, rng, max_docs=3, latin=None, long=None, commands=True,
                 dangling=False, aliases=None, flat=False, rich=True,
                 wild=False, declare=False, entities=True):
        self.rng = rng
        self.latin = rng.random() < .12 if latin is None else latin
        self.enc = 'iso-8859-1' if self.latin and rng.random() < .7 \
            else 'utf-8'
        if not self.latin and rng.random() < .04:
            self.enc = 'utf-16'
        self.po_enc = 'iso-8859-1' if self.latin else None
        # the encoding of the PO file may be said only by its header
        self.declared = declare and self.latin and rng.random() < .5
        self.undeclared = False
        self.html_enc = 'utf-8'
        if self.latin and rng.random() < .6:
            self.html_enc = 'iso-8859-1'
        elif rng.random() < .05:
            self.html_enc = 'utf-16'
        self.g = dm.Gen(rng, rng.choice('qxyz'), latin=self.latin,
                        long=rng.random() < .3 if long is None else long,
                        rich=rich)
        self.g.entities = entities
        self.cmds = commands
        self.dangling = dangling
        if aliases is None:
            aliases = rng.random() < .2
        self.aliases = {'on': 'enable', 'off': 'mdpo-disable',
                        'ctx': 'context', 'hint': 'mdpo-translator'} \
            if aliases else None
        self.inc = rng.random() < .2
        n = rng.randrange(1, max_docs + 1)
        pool = [s for s in SOURCES if s.startswith('docs/')
                and s.count('/') == 1] if flat else SOURCES
        if rng.random() < .6:      # mostly plain names
            pool = [s for s in pool if s in SOURCES[:9]]
        self.paths = sorted(rng.sample(pool, n))
        self.docs = {p: self.newdoc() for p in self.paths}
        self.past = {p: [d] for p, d in self.docs.items()}
        self.ntr = 0
        self.head_fuzzy = True
        # text outside of the model, for checks that do not need it
        self.wild = wildmod.Wild(rng, self.latin, rng.random() < .3) \
            if wild else None
        self.tails = {}

    def spec(self, path, fresh=False):
        """Description of a source file."""
        s = {'doc': self.docs[path], 'enc': self.enc}
        if self.wild:
            if fresh or path not in self.tails:
                self.tails[path] = '\n' + self.wild.text()
            s['tail'] = self.tails[path]
        return s

    def newdoc(self, size=None):
        for _ in range(50):
            d = self.g.doc(size=size, commands=self.cmds,
                           aliases=self.aliases,
                           dangling=self.dangling and self.rng.random() < .5,
                           inc=self.inc)
            d = copy.deepcopy(d)
            if dm.valid(d):
                return d
        raise AssertionError

    def world(self):
        w = {p: self.spec(p) for p in self.docs}
        if self.declared and self.rng.random() < .4:
            self.undeclared = True
        elif self.declared:
            w['locale/es.po'] = {'po': {
                'entries': [], 'enc': self.po_enc, 'header': {
                    'Content-Type': f'text/plain; charset={self.po_enc}'}}}
        return w

    def undeclare(self, call, files):
        """Leave the encoding of the PO file to its header."""
        if self.undeclared and call['tool'] == 'md2po' and \
                files == ['locale/es.po']:
            # the metadata of the first call say the encoding
            self.undeclared = False
            call['args'].setdefault('metadata', {})['Content-Type'] = \
                f'text/plain; charset={self.po_enc}'
        if self.declared and self.rng.random() < .6 and \
                all(f in ('locale/es.po', 'lnk.po') for f in files):
            call['args'].pop('po_encoding', None)
            call['enc'] = self.po_enc
        return call

    def src_args(self, paths=None):
        """A way of naming the given sources."""
        rng = self.rng
        paths = paths or self.paths
        if len(paths) == 1 and rng.random() < .5:
            return paths[0]
        if paths == self.paths and rng.random() < .5 and \
                all(p.startswith('docs/') and p.count('/') == 1
                    for p in self.paths):
            return rng.choice(['docs/*.md', ['docs/*.md']])
        if paths == self.paths and rng.random() < .5 and \
                all(p[:5] in ('docs/', 'guide') and p.count('/') == 1
                    for p in self.paths):
            return rng.choice(['[dg]*/*.md', ['guide/*.md', 'docs/*.md']])
        paths = list(paths)
        rng.shuffle(paths)
        return paths

    # edits ---------------------------------------------------------------

    def mutate(self, doc):
        rng = self.rng
        for _ in range(30):
            d = copy.deepcopy(doc)
            for _ in range(rng.choice([1, 1, 2])):
                b = d['blocks']
                r = rng.random()
                if r < .3 and b:
                    del b[rng.randrange(len(b))]
                elif r < .65:
                    new = self.newdoc(rng.choice([1, 2]))
                    if new.get('refs') or new.get('dangling'):
                        continue
                    i = rng.randrange(len(b) + 1)
                    b[i:i] = new['blocks']
                elif r < .8 and b:
                    ts = [t for x in b for t in dm._texts(x)]
                    if ts:
                        t = rng.choice(ts)
                        t['in'][0] = ['w', self.g.uniq()]
                elif r < .9 and len(b) > 1:
                    i = rng.randrange(len(b) - 1)
                    b[i], b[i + 1] = b[i + 1], b[i]
                else:
                    d = self.newdoc()
            if d['blocks'] and dm.valid(d):
                return d
        return copy.deepcopy(doc)

    def edit(self):
        """An author edit: returns the step and remembers the new document."""
        rng = self.rng
        p = rng.choice(self.paths)
        if rng.random() < .35 and len(self.past[p]) > 1:
            d = rng.choice(self.past[p][:-1])     # text comes back
        else:
            d = self.mutate(self.docs[p])
        self.docs[p] = d
        self.past[p].append(d)
        return {'op': 'write', 'path': p,
                'file': self.spec(p, rng.random() < .4)}

    def words(self, k):
        return ' '.join(self.g.word() for _ in range(k))

    def tr(self):
        self.ntr += 1
        w = f'T{self.ntr} {self.words(self.rng.choice([1, 1, 3]))}'
        if not self.g.latin and self.rng.random() < .06:
            # line and page separators of other systems, wide characters
            w += self.rng.choice(ODD) + 'odd'
        if self.rng.random() < .1:
            w += ' ' + self.rng.choice(
                [f'`{c}`' for c in dm.CODES if '`' not in c] +
                [m.format('x') for m in dm.MARKUP] +
                ['[x](https://t.org/y)', '{}', 'a & b', '1 < 2'])
        if self.g.long and self.rng.random() < .2:
            w += ' ' + self.words(20)
            if self.rng.random() < .4:
                t = self.rng.choice(dm.TOKENS)      # | would be a table cell
                w += f' {t if t != "|" else "+"} {self.words(9)}'
        return w

    def translation(self, po, share=.6, foreign=True, header=True):
        """A translator edit of a PO file."""
        rng = self.rng
        edits = []
        for i in range(rng.choice([2, 4, 8, 14])):
            if rng.random() > share + .3:
                continue
            ed = {'sel': rng.randrange(60)}
            r = rng.random()
            if r < .8:
                ed['set'] = self.tr()
            elif r < .88:
                ed['set'] = ''
            if rng.random() < .2:
                ed['fuzzy'] = rng.random() < .7
            if rng.random() < .15:
                ed['tc'] = 'comment ' + self.words(2)
            if rng.random() < .08:
                ed['flag'] = rng.choice(['c-format', 'no-python-format'])
            if rng.random() < .06:
                ed['prev'] = 'previous ' + self.words(2)
                if rng.random() < .5:
                    ed['prevctx'] = 'previous context'
            edits.append(ed)
        if header and rng.random() < .3:
            edits.append({'header': rng.choice([
                {'Language': 'es'}, {'X-Team': 'tëam'},
                {'Last-Translator': 'José', 'Language': 'fr'}])})
            if rng.random() < .5:
                edits[-1]['intro'] = rng.choice([
                    'Translations of the team.', 'Copyright ' + self.words(2)
                    + '\n\nSecond ' + self.words(1), ''])
            if self.head_fuzzy and rng.random() < .3:
                edits[-1]['intro_fuzzy'] = rng.random() < .7
        if foreign and rng.random() < .2:
            self.ntr += 1
            e = {'id': f'foreign{self.ntr} {self.words(1)}', 'str': self.tr()}
            r = rng.random()
            if r < .35:
                e['obsolete'] = True
            elif r < .5:
                e['ctx'] = 'foreign'
            elif r < .65:
                e.update(plural=f'foreigns{self.ntr}', str='',
                         plurals={'0': self.tr() if rng.random() < .7 else '',
                                  '1': self.tr() if rng.random() < .7 else ''})
            elif r < .8:
                e['flags'] = ['fuzzy']
            edits.append({'add': e})
        step = {'op': 'translate', 'path': po, 'edits': edits,
                'wrap': rng.choice([78, 78, 40, 0]) or 9999,
                'enc': self.po_enc or 'utf-8'}
        if rng.random() < (.4 if self.declared else .15):
            step[rng.choice(['compact', 'crlf'])] = True
        return step

    # calls -------------------------------------------------------------------

    def published(self, doc):
        """A page published from a document."""
        f = {'html': doc, 'enc': self.html_enc}
        if self.rng.random() < .3:
            f['page'] = self.rng.randrange(len(dm.PAGES))
        return f

    def base_args(self, tool):
        """Options that keep their values through a history."""
        a = {}
        if self.aliases:
            a['aliases'] = self.aliases
        if self.po_enc:
            a['po_encoding'] = self.po_enc
        if self.enc != 'utf-8':
            a['md_encoding'] = self.enc
        if tool in ('md2po', 'md2po2md') and self.inc:
            a['include_codeblocks'] = True
        return a

    def md2po(self, po='locale/es.po', src=None, via=None, mode=None, **over):
        rng = self.rng
        a = self.base_args('md2po')
        a['src'] = src if src is not None else self.src_args()
        a['po'] = po
        a['save'] = True
        a['mode'] = mode or rng.choices(['mark', 'merge', 'remove'],
                                        [6, 2, 2])[0]
        if rng.random() < .3:
            a['mo'] = po[:-3] + '.mo'
        if rng.random() < .3:
            a['location'] = False
        if rng.random() < .25:
            a['wrapwidth'] = rng.choice(['0', '40', '60', '78', 'inf'])
        if rng.random() < .12:
            a['xheader'] = True
        if rng.random() < .15:
            a['metadata'] = {'Content-Type':
                             f'text/plain; charset={self.po_enc or "utf-8"}',
                             'X-Run': rng.choice(['one', 'two'])}
        if rng.random() < .35:
            a['check'] = True
        via = via or rng.choice(['cli', 'cli', 'api', 'run'])
        if via == 'api':
            if rng.random() < .12:
                a['msgstr'] = 'default text'
        elif rng.random() < .5:
            a['quiet'] = True
        a.update(over)
        a = {k: v for k, v in a.items() if v is not None}
        return self.undeclare({'tool': 'md2po', 'via': via, 'args': a}, [po])

    def po2md(self, src, pofiles, save=None, via=None, **over):
        rng = self.rng
        a = self.base_args('po2md')
        a['src'] = src
        a['pofiles'] = pofiles
        if save is not None:
            a['save'] = save
        if rng.random() < .3:
            a['wrapwidth'] = rng.choice([0, 40, 120])
        if rng.random() < .35:
            a['check'] = True
        via = via or rng.choice(['cli', 'cli', 'api', 'run'])
        if via != 'api' and rng.random() < .3:
            a['quiet'] = True
        a.update(over)
        a = {k: v for k, v in a.items() if v is not None}
        return self.undeclare({'tool': 'po2md', 'via': via, 'args': a},
                              pofiles)

    def html(self, src, pofiles, save=None, via=None, **over):
        rng = self.rng
        a = self.base_args('mdpo2html')
        a.pop('md_encoding', None)
        if self.html_enc != 'utf-8':
            a['html_encoding'] = self.html_enc
        a['src'] = src
        a['pofiles'] = pofiles
        if save is not None:
            a['save'] = save
        if rng.random() < .35:
            a['check'] = True
        via = via or rng.choice(['cli', 'cli', 'api', 'run'])
        if via != 'api' and rng.random() < .3:
            a['quiet'] = True
        a.update(over)
        a = {k: v for k, v in a.items() if v is not None}
        return self.undeclare({'tool': 'mdpo2html', 'via': via, 'args': a},
                              pofiles)

    def md2po2md(self, via=None, src=None, langs=None, **over):
        rng = self.rng
        a = self.base_args('md2po2md')
        a['src'] = src or ('docs/*.md' if all(
            p.startswith('docs/') and p.count('/') == 1 for p in self.paths)
            else rng.choice(self.paths))
        a['langs'] = langs or sorted(rng.sample(
            LANGS, rng.choice([1, 1, 2, 3])))
        a['schema'] = rng.choice(['locale/{lang}', 'locale/{lang}',
                                  '{lang}/docs', 'out/{lang}/t',
                                  'locale/{lang}/{basename}.md',
                                  'out/{basename}_{lang}.md'])
        if rng.random() < .25:
            a['location'] = False
        if rng.random() < .25:
            a['po_wrapwidth'] = rng.choice([0, 40, 100])
        if rng.random() < .25:
            a['md_wrapwidth'] = rng.choice([0, 40, 100])
        if rng.random() < .35:
            a['check'] = True
        via = via or rng.choice(['cli', 'cli', 'api', 'run'])
        a.update(over)
        a = {k: v for k, v in a.items() if v is not None}
        return {'tool': 'md2po2md', 'via': via, 'args': a}


def sources_of(src, state):
    """Paths a call's source argument names, in processing order."""
    out = []
    for p in [src] if isinstance(src, str) else src:
        out += matches(p, state)
    return sorted(set(out))


def matches(pattern, state):
    """Files that a path or glob names."""
    import fnmatch
    if state.get(pattern) is not None:
        return [pattern]
    p = pattern.split('/')
    out = []
    for f in state:
        q = f.split('/')
        if state[f] is not None and len(p) == len(q) and all(
                a == b or fnmatch.fnmatchcase(b, a) and
                (a.startswith('.') or not b.startswith('.'))
                for a, b in zip(p, q)):
            out.append(f)
    return sorted(out)


def md2po2md_files(args, path):
    """PO and Markdown files of one source."""
    base = path.rsplit('/', 1)[-1]
    out = []
    if '{basename}' in args['schema']:
        stem = base.rsplit('.', 1)[0]
        for lang in args['langs']:
            d = args['schema'].format(lang=lang, basename=stem)
            out.append((lang, d if d.endswith('.po') else d + '.po', d))
        return out
    for lang in args['langs']:
        d = args['schema'].format(lang=lang)
        out.append((lang, f'{d}/{base}.po', f'{d}/{base}'))
    return out


def random_env(rng, plain=False):
    """Environment of a run: clock, locale, directory order, chunking..."""
    env = {'rng': rng.randrange(1 << 30), 'pid': rng.randrange(100, 30000)}
    if plain:
        return env
    if rng.random() < .3:
        env['chunk'] = rng.choice([1, 7, 64, -1])
    if rng.random() < .3:
        env['bufsize'] = rng.choice([16, 64, 256])
    if rng.random() < .15:
        env['wchunk'] = rng.choice([1, 13, 100])
    if rng.random() < .3:
        env['dirorder'] = rng.choice(['rev', 1, 2, 3])
    if rng.random() < .2:
        env['clock'] = rng.choice([0.0, 951827696.0, 4102444800.0])
    if rng.random() < .5:
        env['mtimes'] = rng.randrange(1000)
    if rng.random() < .4:
        env['grain'] = rng.choice([1, 2])
    return env


MARKS = {'bold_start_string': '__', 'bold_end_string': '__',
         'italic_start_string': '_', 'italic_end_string': '_'}
MARKS2 = {'code_start_string': '`', 'bold_start_string': '<b>',
          'bold_end_string': '</b>', 'wikilink_start_string': '[(',
          'wikilink_end_string': ')]', 'latexmath_start_string': '$$',
          'latexmath_end_string': '$$'}


def extra_kwargs(rng, tool):
    """Arguments that only the API has."""
    if tool in ('md2po', 'po2md'):
        return rng.choice([MARKS, MARKS2])
    if tool == 'mdpo2html':
        return rng.choice([
            {'merge_adjacent_markups': True}, {'bold_tags': ['b']},
            {'code_tags': ['code', 'kbd'], 'italic_tags': ['i']},
            {'ignore_grouper_tags': ['div', 'hr', 'section']},
            {'link_tags': [], 'image_tags': []}])
    return rng.choice([
        {'md2po_kwargs': MARKS, 'po2md_kwargs': MARKS},
        {'po2md_kwargs': MARKS2, 'md2po_kwargs': {'xheader': True}}])


ERRORS = ['eio', 'enospc', 'eacces', 'erofs', 'emfile', 'edquot', 'estale',
          'enomem', 'nomem']
WRITE_CLS = ['open_w', 'write', 'close', 'fsync', 'rename', 'unlink', 'mkdir',
             'meta', 'trunc']


def pick_fault(rng, log, kinds='all'):
    """One fault at an operation of a reference log.

    ``log`` holds lines ``n class path ...``.  Writing operations are
    preferred; the effect is one that makes sense there.
    """
    import seam
    ops = []
    for line in log:
        p = line.split(' ')
        if p[0].isdigit() and p[1] in seam.EFFECTS:
            ops.append((p[1], p[2]))
    if not ops:
        return None
    w = [i for i, o in enumerate(ops) if o[0] in WRITE_CLS]
    i = rng.choice(w) if w and rng.random() < .65 else rng.randrange(len(ops))
    cls = ops[i][0]
    nth = sum(1 for o in ops[:i] if o[0] == cls)
    effs = seam.EFFECTS[cls]
    if kinds == 'errors':
        effs = [e for e in effs if not seam.is_kill(e) and
                'interrupt' not in e]
    elif kinds == 'failures':      # the process goes on
        effs = [e for e in effs if not seam.is_kill(e)]
    elif kinds == 'kills':
        effs = [e for e in effs if seam.is_kill(e)]
    if not effs:
        return None
    f = {'cls': cls, 'nth': nth, 'effect': rng.choice(effs)}
    if f['effect'].startswith('torn_'):
        f['arg'] = rng.randrange(4096)
    if kinds != 'kills' and not seam.is_kill(f['effect']) and \
            rng.random() < .1:
        f['times'] = rng.choice([2, 5, 1000])
    return f


def blind_fault(rng, kinds='all'):
    """A fault at a random operation, without knowing what the run does."""
    import seam
    cls = rng.choice(['any', 'any', 'write', 'open_w', 'rename', 'fsync',
                      'close', 'open_r', 'read'])
    if rng.random() < .04:
        return {'cls': 'line', 'nth': rng.randrange(4000),
                'effect': 'interrupt'}
    effs = seam.EFFECTS[cls] if cls != 'any' else \
        ['eio', 'enospc', 'crash', 'crash', 'interrupt', 'nomem']
    if kinds == 'failures':
        effs = [e for e in effs if not seam.is_kill(e)]
    f = {'cls': cls, 'nth': rng.randrange(40 if cls == 'any' else 4),
         'effect': rng.choice(effs)}
    if f['effect'].startswith('torn_'):
        f['arg'] = rng.randrange(4096)
    return f


def is_power(plan):
    return any('power' in f['effect'] for f in plan)


def seeded(*parts):
    return random.Random(':'.join(str(p) for p in parts))


state_of = nodemod.state
