"""Reference model of a Markdown document for mdpo.

A document is plain JSON: blocks with inline items.  From it the model derives
the Markdown text, the messages an extraction must yield (honouring mdpo
commands) and the document a translation must render as.  Nothing here looks
at the code under test.
"""

import copy
import re

WORDS = ('alpha bravo carol delta echo fox golf hotel india julia kilo lima '
         'mike nova oscar papa quebec romeo sierra tango umbra victor whisky '
         'xray yankee zulu').split()
UNI = ['café', 'naïve', 'größe', 'señal', 'Ærø', 'übung']
WIDE = ['日', 'Жизнь', 'λόγος', '测', 'ñandú', 'зима', '𝔘nicode']

CODE_CMDS = ('include-codeblock', 'disable-codeblock', 'include-codeblocks',
             'disable-codeblocks')
PENDING = ('disable-next-block', 'disable-next-line', 'enable-next-block',
           'enable-next-line', 'context', 'translator')


# -- rendering ---------------------------------------------------------------

def code_span(text):
    n = 1
    while re.search(r'(?<!`)' + '`' * n + r'(?!`)', text):
        n += 1
    pad = ' ' if '`' in (text[0], text[-1]) or (
        text[0] == ' ' == text[-1] and text.strip()) else ''
    return '`' * n + pad + text + pad + '`' * n


def item(it):
    k = it[0]
    if k in 'wtm':      # words, tokens and other markup
        return it[1]
    if k == 'b':
        return f'**{it[1]}**'
    if k == 'i':
        return f'*{it[1]}*'
    if k == 'c':
        return code_span(it[1])
    if k == 'x':        # source, message and text
        return it[2]
    if k == 'l':
        return f'[{it[1]}]({it[2]})'
    if k == 'lt':
        return f'[{it[1]}]({it[2]} "{it[3]}")'
    if k == 'img':
        return f'![{it[1]}]({it[2]})'
    if k == 'imt':
        return f'![{it[1]}]({it[2]} "{it[3]}")'
    if k == 'au':
        return f'<{it[1]}>'
    if k == 'rl':
        return f'[{it[1]}][{it[2]}]'
    if k == 'ri':
        return f'![{it[1]}][{it[2]}]'
    if k == 'rs':
        return f'[{it[1]}]'
    raise AssertionError(it)


SPAN_ITEMS = ('l', 'lt', 'img', 'imt', 'au', 'rl', 'rs', 'ri')


def msgid(t):
    return ' '.join(item(i) for i in t['in'])


def plain(it):
    """Text of an item without markup."""
    k = it[0]
    if k == 'm':
        text = re.sub(r'\[\[(?:[^]|]*\|)?([^]]*)\]\]', r'\1', it[1])
        return re.sub(r'[*`~$]', '', text)
    if k == 'l':
        return re.sub(
            r'\*|(?<!`)(`+)(?!`)( ?)(.*?)\2(?<!`)\1(?!`)',
            lambda m: m[3] or '', it[1])
    if k == 'x':
        return it[3]
    return it[1]


def titles(t, doc):
    """Titles of the links and images of a text."""
    refs = {r[0]: r[2] for r in doc.get('refs', ())}
    for i in t['in']:
        if i[0] in ('lt', 'imt'):
            yield i[3]
        elif i[0] in ('rl', 'ri') and refs[i[2]]:
            yield refs[i[2]]
        elif i[0] == 'rs' and refs[i[1]]:
            yield refs[i[1]]


def source(t):
    """Source text: some separators are line breaks."""
    def form(it):
        return it[1] if it[0] == 'x' else item(it)

    out = form(t['in'][0])
    nl = set(t.get('nl', ()))
    for i, it in enumerate(t['in'][1:], 1):
        out += ('\n' if i in nl else ' ') + form(it)
    return out


def leaves(block):
    """What a block holds, in order: ('t', text), ('code' or 'cmd', block)."""
    k = block['k']
    if k in ('h', 'p'):
        yield 't', block['t']
    elif k in ('ul', 'ol'):
        for it in block['items']:
            yield 't', it['t']
            for t in it.get('sub') or ():
                yield 't', t
            for b in it.get('bl') or ():
                yield from leaves(b)
    elif k == 'q':
        for t in block['ps']:
            yield 't', t
        for b in block.get('bl') or ():
            yield from leaves(b)
    elif k == 'tb':
        for row in block['rows']:
            for t in row:
                yield 't', t
    elif k in ('code', 'cmd'):
        yield k, block


def _texts(block):
    return (x for k, x in leaves(block) if k == 't')


def nested(blocks):
    """Whether some blocks hold other blocks."""
    return any(it.get('bl') for b in blocks
               for it in b.get('items') or [b])


def commands(doc):
    return [x for b in doc['blocks'] for k, x in leaves(b) if k == 'cmd']


def has_spans(doc):
    return any(i[0] in SPAN_ITEMS or i[0] == 'x' and '![' in i[1]
               for b in doc['blocks'] for t in _texts(b) for i in t['in'])


def _pad(text, pad):
    return '\n'.join(pad + x if x else '' for x in text.split('\n'))


def _blocks(blocks, text, code, cmds):
    """Markdown texts of blocks."""
    out = []
    for b in blocks:
        k = b['k']
        if k == 'h':
            t = text(b['t'], 'h')
            if b.get('setext') and b['lv'] <= 2:
                out.append(f'{t}\n{"==="  if b["lv"] == 1 else "---"}')
            else:
                out.append('#' * b['lv'] + ' ' + t)
        elif k == 'p':
            out.append(text(b['t'], 'p'))
        elif k in ('ul', 'ol'):
            lines = []
            loose = any(it.get('bl') and not it.get('tight')
                        for it in b['items'])
            for i, it in enumerate(b['items']):
                mark = f'{i + b.get("start", 1)}{b.get("mark") or "."} ' \
                    if k == 'ol' else b.get('mark', '-') + ' '
                pad = ' ' * len(mark)
                task = it.get('task')
                pre = '' if task is None else '[x] ' if task else '[ ] '
                t = text(it['t'], 'li').replace('\n', '\n' + pad)
                lines.append(mark + pre + t)
                for s in it.get('sub') or ():
                    lines.append(pad + '- ' +
                                 text(s, 'li').replace('\n', '\n' + pad +
                                                       '  '))
                for s in _blocks(it.get('bl') or (), text, code, cmds):
                    if not it.get('tight'):
                        lines.append('')
                    lines.append(_pad(s, pad))
                if loose and i + 1 < len(b['items']):
                    lines.append('')
            out.append('\n'.join(lines))
        elif k == 'q':
            out.append('\n'.join(
                '> ' + x if x else '>' for x in '\n\n'.join(
                    [text(p, 'q') for p in b['ps']] +
                    _blocks(b.get('bl') or (), text, code, cmds)
                ).split('\n')))
        elif k == 'tb':
            rows = [[cell(text(c, 'td')) for c in r] for r in b['rows']]
            lines = ['| ' + ' | '.join(r) + ' |' for r in rows]
            al = [{'l': ':--', 'r': '--:', 'c': ':-:', '': '---'}[a]
                  for a in b['al']]
            lines.insert(1, '| ' + ' | '.join(al) + ' |')
            out.append('\n'.join(lines))
        elif k == 'code':
            body = code(b)
            if b.get('indented'):
                out.append(_pad(body.rstrip('\n'), '    '))
            else:
                fence = b.get('fence', '```')
                while fence in body:
                    fence += fence[0]
                out.append(f'{fence}{b.get("lang", "")}\n{body}{fence}')
        elif k == 'hr':
            out.append('***')
        elif k == 'html':
            out.append(b['s'])
        elif k == 'cmd':
            if cmds:
                out.append(command(b))
        else:
            raise AssertionError(k)
    return out


def cell(text):
    """Text of a table cell: the bars outside of code are escaped."""
    return re.sub(r'(`+).*?\1|(\|)',
                  lambda m: '\\|' if m[2] else m[0], text)


def _render(blocks, refs, text, code, cmds=True):
    """Markdown text of blocks; ``text`` renders a text, ``code`` a block."""
    out = _blocks(blocks, text, code, cmds)
    if refs:
        out.append('\n'.join(refs))
    return '\n\n'.join(out) + '\n'


def command(b):
    name = b.get('as') or 'mdpo-' + b['name']
    arg = f' {b["arg"]}' if b.get('arg') else ''
    sp = '' if b.get('tight') else ' '
    return f'<!--{sp}{name}{arg}{sp}-->'


def code_text(b):
    return '\n'.join(b['lines']) + '\n'


def ref_line(r):
    return f'[{r[0]}]: {r[1]}' + (f' "{r[2]}"' if r[2] else '')


def markdown(doc):
    return _render(doc['blocks'], [ref_line(r) for r in doc.get('refs', ())],
                   lambda t, where: source(t) if where in ('p', 'q', 'li')
                   else msgid(t), code_text)


def valid(doc):
    """Whether the model is defined for this document (used by shrinking)."""
    prev = None
    pend = False
    codepend = False
    names = {r[0] for r in doc.get('refs', ())}
    for n, b in enumerate(doc['blocks']):
        k = b['k']
        if k in ('ul', 'ol') and (not b['items'] or prev in ('ul', 'ol')):
            return False
        if k == 'q' and (not b['ps'] or prev == 'q'):
            return False
        if not _valid_nested(b):
            return False
        if k == 'tb' and not _valid_table(b):
            return False
        if k == 'code' and b.get('indented') and (
                prev in ('ul', 'ol', 'code', 'cmd') or not _filled(b)):
            return False
        for t in _texts(b):
            if not t['in'] or any(t['in'][n][0] == 't'
                                  for n in [0] + t.get('nl', [])
                                  if n < len(t['in'])) \
                    or t['in'][-1] in (['t', '#'], ['t', '##']):
                return False    # headings do not end with them
            for i in t['in']:
                if i[0] == 'x' and tuple(i[1:]) not in [
                        tuple(x.replace('@', w) for x in f) for f in FORMS
                        for w in [i[3].split(' ')[0].strip('`')]]:
                    return False
                if i[0] in ('rl', 'ri') and i[2] not in names:
                    return False
                if i[0] == 'rs' and i[1] not in names:
                    return False
        if k == 'cmd':
            if b['name'] in PENDING:
                pend = True
            elif b['name'] == 'include':
                pend = False
            elif b['name'] in ('include-codeblock', 'disable-codeblock'):
                codepend = True
        elif k in ('hr', 'html'):
            if pend or codepend:
                return False
        elif k == 'code':
            codepend = False
            if pend and not b.get('_included'):
                return False
            pend = False
        else:
            if codepend:
                return False
            pend = False
        if k != 'cmd':
            prev = k
        else:
            prev = 'cmd'
    if pend or codepend:
        if not doc.get('dangling') or doc.get('refs'):
            return False
    return True


def _valid_table(b):
    return len(b['rows']) > 0 and all(
        len(r) == len(b['al']) for r in b['rows'])


def _filled(b):
    return bool(b['lines'] and b['lines'][0].strip() and
                b['lines'][-1].strip())


def _valid_nested(b):
    """Whether the blocks inside a list or a quote make sense there."""
    for holder in b['items'] if b['k'] in ('ul', 'ol') else [b]:
        bl = holder.get('bl')
        if not bl:
            continue
        if holder.get('sub') or holder.get('task') is not None:
            return False
        prev = 'p'
        for x in bl:
            k = x['k']
            if k in ('ul', 'ol') and (not x['items'] or prev in ('ul', 'ol')):
                return False
            if k == 'q' and (not x['ps'] or prev == 'q'):
                return False
            if k == 'tb' and not _valid_table(x):
                return False
            if k == 'cmd' and (x['name'] not in PENDING or x is bl[-1]):
                return False
            if prev == 'cmd' and k != 'p' or not _valid_nested(x):
                return False
            if holder.get('tight') and (
                    x.get('indented') or x.get('setext') or (
                        k not in ('code', 'q', 'ul', 'h') if x is bl[0] else
                        x is not bl[1] or k != 'p' or
                        prev not in ('code', 'h'))):
                return False
            if k == 'code' and x.get('indented') and (
                    prev in ('ul', 'ol', 'code') or not _filled(x)):
                return False
            prev = k
    return True


# -- walking the command state machine ----------------------------------------

class Walk:
    """Interpretation of a document: which messages, with which state."""

    def __init__(self, doc, include_codeblocks=False, aliases=None,
                 ignore=(), plaintext=False):
        self.msgs = []
        self.doc = doc
        self.plaintext = plaintext
        self.inc = include_codeblocks
        self.ignore = set(ignore)
        self.aliases = aliases or {}
        self.disable = self.dnb = self.enb = False
        self.ctx = self.tc = None
        self.incnext = self.disnext = False
        self.codes = {}     # whether code blocks not included are enabled
        for bi, b in enumerate(doc['blocks']):
            self.block(bi, b)
        if doc.get('refs') and has_spans(doc) and not plaintext:
            self.disable = self.dnb = False
            for r in doc['refs']:
                self.message(('ref', ref_line(r)), ref_line(r), ref=True)

    def message(self, where, mid, ref=False):
        on = (not self.dnb and not self.disable) or self.enb
        self.msgs.append({
            'where': where, 'id': mid, 'ctx': self.ctx, 'comment': self.tc,
            'on': on, 'ref': ref,
            'extract': on and mid not in self.ignore})
        self.dnb = self.enb = False
        self.ctx = self.tc = None

    def block(self, bi, b):
        for n, (k, t) in enumerate(leaves(b)):
            if k == 'cmd':
                self.cmd((bi, n), t)
            elif k == 'code':
                if not self.disnext and (self.inc or self.incnext):
                    self.message(id(t), code_text(t))
                else:
                    self.codes[id(t)] = not self.disable
                self.incnext = self.disnext = False
            elif self.plaintext:
                for title in titles(t, self.doc):
                    self.title((bi, n, 'title'), title)
                self.message(id(t), ' '.join(map(plain, t['in'])))
            else:
                self.message(id(t), msgid(t))

    def title(self, where, mid):
        """Titles are messages of their own, under the state of their text."""
        state = self.dnb, self.enb, self.ctx, self.tc
        self.ctx = self.tc = None
        self.message(where, mid)
        self.dnb, self.enb, self.ctx, self.tc = state

    def cmd(self, where, b):
        name = b['name']
        if name in ('disable-next-block', 'disable-next-line'):
            self.dnb = True
        elif name in ('enable-next-block', 'enable-next-line'):
            self.enb = True
        elif name == 'disable':
            self.disable = True
        elif name == 'enable':
            self.disable = False
        elif name == 'context':
            self.ctx = b['arg']
        elif name == 'translator':
            self.tc = b['arg']
        elif name == 'include-codeblock':
            self.incnext = True
        elif name == 'disable-codeblock':
            self.disnext = True
        elif name == 'include-codeblocks':
            self.inc = True
        elif name == 'disable-codeblocks':
            self.inc = False
        elif name == 'include':
            self.message((where, 'include'), b['arg'])
        else:
            raise AssertionError(name)


def extraction(docs, include_codeblocks=False, ignore=(), plaintext=False):
    """Ordered distinct messages of several documents (path order given)."""
    out, seen = [], set()
    for d in docs:
        for m in Walk(d, include_codeblocks, ignore=ignore,
                      plaintext=plaintext).msgs:
            if not m['extract'] or (m['id'], m['ctx']) in seen:
                continue
            seen.add((m['id'], m['ctx']))
            out.append(m)
    return out


def translated(doc, lookup, cmds=False):
    """Markdown of the document with translations; commands left out or not.

    ``lookup(msgid, ctx)`` gives the translation or a false value.  Code
    blocks are translated whenever the catalogue has them and they are not
    disabled.
    """
    w = Walk(doc)
    by = {}
    for m in w.msgs:
        by[m['where']] = m

    def text(t, where):
        m = by[id(t)]
        return (lookup(m['id'], m['ctx']) if m['on'] else None) or msgid(t)

    def code(b):
        # always looked up when translating
        m = by.get(id(b))
        on, ctx = (m['on'], m['ctx']) if m else (w.codes[id(b)], None)
        return (lookup(code_text(b), ctx) if on else None) or code_text(b)
    refs = []
    for r in doc.get('refs', ()):
        tr = lookup(ref_line(r), None)
        refs.append(tr or ref_line(r))
    return _render(doc['blocks'], refs, text, code, cmds=cmds)


# -- HTML comparison ------------------------------------------------------------

_RENDERER = None
_PARSED = None


def html(md, loose=False):
    """Normalised HTML of a Markdown text (md4c is the oracle's renderer).

    With ``loose``, tight and loose lists are the same.
    """
    global _RENDERER
    import md4c
    if _PARSED is not None:
        _PARSED.append(md)
    if _RENDERER is None:
        _RENDERER = md4c.HTMLRenderer(
            0, tables=True, tasklists=True, strikethrough=True,
            latex_math_spans=True, wikilinks=True)
    h = _normal(_RENDERER.parse(md))
    return _same_lists(h) if loose else h


def parsed(func):
    """Markdown texts rendered by a function."""
    global _PARSED
    _PARSED = []
    try:
        func()
        return _PARSED
    finally:
        _PARSED = None


def steady(md):
    """Whether md4c parses a text the same after others.

    Its parser fails for some texts depending on their size.
    """
    h = html(md)
    return all(html('a\n\n' * k + md) == '<p>a</p>' * k + h
               for k in (1, 2, 5, 9))


def _same_lists(h):
    """HTML without the paragraphs of list items."""
    out, stack, text = [], [], False
    for part in re.split(r'(<pre>.*?</pre>|</?(?:p|h\d|ul|ol|li|blockquote|'
                         r'table|thead|tbody|tr|th|td|hr|div)\b[^>]*>)', h,
                         flags=re.S):
        tag = re.match(r'<(/?)(p|h\d|ul|ol|li|blockquote|table|thead|tbody|tr|'
                       r'th|td|hr|div|pre)\b', part)
        if not tag:
            text = text or bool(part)
            out.append(part)
            continue
        if text and stack and stack[-1] == 'li':
            out.append('<p>')       # where a text of the item ends
        text = False
        if tag[2] == 'p' and stack and stack[-1] == 'li':
            stack.append('li p')
            continue
        if tag[2] == 'p' and stack and stack[-1] == 'li p':
            stack.pop()
            out.append('<p>')
            continue
        out.append(part)
        if tag[2] in ('ul', 'ol', 'li', 'blockquote'):
            if tag[1]:
                stack.pop()
            else:
                stack.append(tag[2])
    return ''.join(out)


BLOCKS = ('p|h\\d|ul|ol|li|blockquote|table|thead|tbody|tr|th|td|hr|div|pre|'
          'html|head|body|meta|title|link|style|script|nav|main|footer|section|'
          'br|center|details|summary|figure|figcaption|form|dl|dt|dd|textarea|'
          '!DOCTYPE|!\\[CDATA|\\?php|\\?xml').replace('\\\\', '\\')


def _normal(h):
    h = h.replace('/>', '>')
    parts = re.split(r'(<pre>.*?</pre>|<code>.*?</code>)', h, flags=re.S)
    out = []
    for i, p in enumerate(parts):
        if i % 2:
            out.append(p if p.startswith('<pre>') else p.replace('\n', ' '))
        else:
            p = re.sub(r'\s+', ' ', p)
            p = re.sub(rf' ?(</?(?:{BLOCKS})\b[^>]*>) ?', r'\1', p)
            if i and parts[i - 1].startswith('<pre>'):
                p = p.lstrip(' ')
            if parts[i + 1:] and parts[i + 1].startswith('<pre>'):
                p = p.rstrip(' ')
            out.append(p)
    return ''.join(out).replace('&quot;', '"').strip()


def html_of(h):
    """Normalised HTML text, without its comments."""
    h = re.sub(r'<!--.*?-->', '', h, flags=re.S)
    return _normal(h)


# -- generation -------------------------------------------------------------------

# code, words and markup with characters that are special somewhere
NESTED_LI = ['p', 'p', 'code', 'q', 'ul', 'ol', 'tb', 'h']
NESTED_Q = ['p', 'p', 'code', 'q', 'ul', 'ol', 'tb', 'h']
CODES = ['a  b', '<b>', 'x & y', '*x*', '{}', '{0} }', '"q"', '[x](y)',
         'x`y', 'a``b c`d', '\\n', "it's", '<!-- mdpo-disable -->', '%s',
         '&amp;', '- x', '# x', '~~x~~', '`', '`x`', 'x`', '``', ' x ', '` `',
         ' x', '` x']
# forms of the source that messages do not keep: source, message, text
FORMS = [('`` @ ``', '`@`', '@'), ('`@\nx`', '`@ x`', '@ x'),
         ('``@`\nx``', '``@` x``', '@` x'),
         ('![@ *b*](i.png)', '![@ b](i.png)', '@ b'),
         ('![**@**](i.png)', '![@](i.png)', '@'),
         ('![@\nx](i.png)', '![@ x](i.png)', '@ x'),
         ('![@ `c`](i.png)', '![@ c](i.png)', '@ c'),
         ('![@ & x](i.png)', '![@ & x](i.png)', '@ & x'),
         ('![@ [in](y) b](i.png)', '![@ in b](i.png)', '@ in b')]
TOKENS = ['{x}', '&', '<', '>', '+', '*', '#', '##', '1.', '2)', '=', '--', '-',
          '!', '[x]', '~', '{', '}', '{}', '\\n', '***', '|',
          '100%s', '@', '1. a', '> b', '+ c', '# d', '~~~', '===']
# blocks of HTML in a document
RAWS = ['<div class="a">\n<b>@</b> &amp; x\n</div>', '<center>@</center>',
        '<details><summary>@</summary>x &lt; <i>b</i></details>',
        '<script>\nif (a && b < "@") {}\n</script>',
        '<script src="@.js"></script>',
        '<style>\np > a { content: "@" }\n</style>',
        '<table><tr><td>@</td></tr></table>',
        '<p align="center">@ <b>x</b></p>',
        '<p align="center">\n<img src="@" alt="">\n</p>',
        '<hr class="@">', '<br>', '<br class="@">',
        '<figure><img src="@"><figcaption>x</figcaption></figure>',
        '<form action="/@"><input name="b"><button>b</button></form>',
        '<dl><dt>@</dt><dd>x <a name="@"></a></dd></dl>',
        '<textarea>\n @\n</textarea>', '<?php echo "@" ?>',
        '<![CDATA[ @ ]]>', '<section>\n@\n</section>',
        '<pre class="b">\n@\n\n  x &amp; y\n</pre>',
        '<script>\na = "@"\n\nb("</p>")\n</script>']

# what surrounds the rendered document in a published page
PAGES = [('<!DOCTYPE html>\n<html lang="en">\n<head>\n<meta charset="utf-8">\n'
          '<title>A site &amp; more</title>\n<link rel="stylesheet" '
          'href="a.css">\n<style>\np > a { color: "x" }\n</style>\n<script>if '
          '(a && b < c) {}</script>\n</head>\n<body class="x">\n<nav><a '
          'href="/">Home</a> <a name="top"></a></nav>\n<main>\n',
          '</main>\n<footer>&lt;A&gt; &amp; <b>me</b><br>x</footer>\n<script '
          'src="x.js"></script>\n</body>\n</html>\n'),
         ('<?xml version="1.0" encoding="utf-8"?>\n<html><head><title>A</title>'
          '</head><body>\n<section>\n', '</section></body></html>'),
         ('<main id="m">', '</main> the end')]

MARKUP = ['***{}***', '**{} *in* out**', '**`{}`**', '~~{}~~', '*{}*, *b*',
          '**{}**.', '`{}`,', '**{}** **b**', '$a {}$', '[[{}]]']
ENTITIES = ['&copy; {}', '&lt;{}&gt;', '&#35; {}', '{}&nbsp;x', '&amp;{};']

# what the header of a PO file may have, as contents of a document
CHARSETS = ['Content-Type: text/html; charset=iso-8859-1',
            'Content-Type: text/html; charset=utf-8',
            'Content-Type: a charset=ascii']


PUNCT = ['.', '!', ', b', ': see [x](y)', ' (a/b)', ' "q"', ' *a*', ' <b>',
         " don't", ' a-b - c', '?', ' & co', ' \\n', '; `c`']


class Gen:
    """Random documents with unique, attributable texts."""

    def __init__(self, rng, tag, latin=False, rich=True, long=False):
        self.rng = rng
        self.tag = tag
        self.n = 0
        self.latin = latin
        self.rich = rich
        self.long = long
        self.cmds = False
        self.entities = True

    def word(self):
        r = self.rng.random()
        if r < .12:
            return self.rng.choice(UNI)
        if r < .18 and not self.latin:
            return self.rng.choice(WIDE)
        if r < .22:
            return self.rng.choice(['"quoted"', "it's", '(paren)', '50%',
                                    'a/b', 'x:y', 'end.', 'so,', 'why?'])
        return self.rng.choice(WORDS)

    def uniq(self):
        self.n += 1
        return f'{self.rng.choice(WORDS)}{self.tag}{self.n}'

    def text(self, doc, plain=False, where='p'):
        rng = self.rng
        k = rng.choice([1, 2, 2, 3, 4, 6])
        if self.long and rng.random() < .3 and where in ('p', 'li', 'q'):
            k += rng.randrange(8, 30)
        items = [['w', self.uniq()]]
        for _ in range(k - 1):
            r = rng.random()
            if not plain and self.rich and rng.random() < .06:
                items.append(self.odd(where))
            elif plain or not self.rich or r < .6:
                items.append(['w', self.word()])
            elif r < .68:
                items.append(['b', rng.choice(WORDS)])
            elif r < .75:
                items.append(['i', rng.choice(WORDS)])
            elif r < .82:
                items.append(['c', rng.choice(WORDS) if rng.random() < .96 else
                              rng.choice(CHARSETS)])
            elif r < .87:
                self.n += 1
                items.append(['l', rng.choice(WORDS), self.url()])
            elif r < .9:
                self.n += 1
                items.append(['lt', rng.choice(WORDS),
                              self.url(), rng.choice(WORDS) + self.amp()])
            elif r < .92:
                self.n += 1
                items.append(['img', rng.choice(WORDS),
                              f'i{self.tag}{self.n}.png'])
            elif r < .94:
                self.n += 1
                items.append(['au', f'https://a.org/{self.tag}{self.n}'])
            elif doc is not None and r < .98:
                self.n += 1
                ref = f'r{self.tag}{self.n}'
                doc.setdefault('refs', []).append(
                    [ref, f'https://r.org/{self.tag}{self.n}',
                     rng.choice([None, None, 'Title ' + rng.choice(WORDS)])])
                r = rng.random()
                items.append(['rs', ref] if r < .4 else
                             ['ri' if r < .5 else 'rl', rng.choice(WORDS), ref])
            else:
                items.append(['w', self.word()])
        if items[-1][0] == 't':
            items.append(['w', self.word()])
        t = {'in': items}
        if where in ('p', 'q') and len(items) > 1 and rng.random() < .3:
            t['nl'] = [n for n in sorted(rng.sample(
                range(1, len(items)), rng.randrange(1, min(3, len(items)))))
                if items[n][:1] != ['t']]
        return t

    def amp(self):
        r = self.rng.random()
        return (' &amp; b' if r < .04 and self.entities else
                ' & b' if r < .1 else '')

    def url(self):
        return f'https://x.org/{self.tag}{self.n}' + \
            self.amp().replace(' ', '').replace('b', 'b=1')

    def odd(self, where):
        rng = self.rng
        r = rng.random()
        if r < .3:
            return ['c', rng.choice(CODES)]
        if r < .36 and where in ('p', 'q', 'li'):
            word = self.word()
            return ['x'] + [x.replace('@', word)
                            for x in rng.choice(FORMS)]
        if r < .6 and where != 'h':
            return ['t', rng.choice(TOKENS)]
        if r < .85:
            kinds = MARKUP
            if where != 'td':
                kinds = kinds + ['[[{}|b c]]']
            if self.entities:
                kinds = kinds + ENTITIES
            return ['m', rng.choice(kinds).format(rng.choice(WORDS))]
        self.n += 1
        if rng.random() < .3:
            return ['l'] + [f'a/{self.tag}{self.n}.md'] * 2
        return ['l', rng.choice(['**{}**', '`{}`', 'a *{}*', '{} b',
                                 '``{}`b``', '`` `{} ``', '*a* `{}`']).format(
            rng.choice(WORDS)), f'https://x.org/{self.tag}{self.n}']

    def nest(self, doc, depth, quote=False):
        """Blocks inside a list item or a quote."""
        rng = self.rng
        bl, prev = [], 'p'
        tight = not quote and rng.random() < .2
        for n in range(rng.choice([1, 2]) if tight else
                       rng.choice([1, 1, 2, 3])):
            if tight and bl and prev not in ('code', 'h'):
                break
            if tight:
                kinds = ['p'] if n else ['code', 'q', 'ul', 'h']
            else:
                kinds = NESTED_Q if quote else NESTED_LI
            kinds = [k for k in kinds if k != prev and not (
                k in ('ul', 'ol') and prev in ('ul', 'ol'))]
            if depth > 1:
                kinds = [k for k in kinds if k not in ('ul', 'ol', 'q')]
            if not kinds:
                break
            b = self.block(doc, prev, rng.choice(kinds), depth + 1)
            if tight:
                b.pop('indented', None)
                b.pop('setext', None)
            if b['k'] == 'p' and not tight and self.cmds and rng.random() < .15:
                c = {'k': 'cmd', 'name': rng.choice(PENDING)}
                if c['name'] in ('context', 'translator'):
                    c['arg'] = rng.choice(['menu', 'button', self.arg()])
                bl.append(c)
            bl.append(b)
            prev = b['k']
        out = {'bl': bl}
        if tight and bl:
            out['tight'] = True
        return out

    def block(self, doc, prev, k=None, depth=0):
        rng = self.rng
        kinds = ['p'] * 6 + ['h'] * 3 + ['code', 'tb', 'hr', 'html']
        if prev not in ('ul', 'ol'):
            kinds += ['ul'] * 2 + ['ol']
        if prev != 'q':
            kinds += ['q']
        k = k or rng.choice(kinds)
        if k == 'h':
            return {'k': 'h', 'lv': rng.randrange(1, 5),
                    't': self.text(doc, where='h'),
                    'setext': rng.random() < .2}
        if k == 'p':
            return {'k': 'p', 't': self.text(doc)}
        if k in ('ul', 'ol'):
            items = []
            task = k == 'ul' and rng.random() < .15
            nest = not task and rng.random() < .25
            for _ in range(rng.choice([1, 2, 2, 3])):
                it = {'t': self.text(doc, where='li')}
                if task:
                    it['task'] = rng.random() < .5
                elif nest:
                    if rng.random() < .6:
                        it.update(self.nest(doc, depth))
                elif k == 'ul' and rng.random() < .25:
                    it['sub'] = [self.text(doc, where='li')
                                 for _ in range(rng.choice([1, 2]))]
                items.append(it)
            b = {'k': k, 'items': items, 'mark': rng.choice('-*+')
                 if k == 'ul' else rng.choice('...)')}
            if k == 'ol' and rng.random() < .15:
                b['start'] = rng.choice([0, 2, 3, 9, 10, 42, 1001])
            return b
        if k == 'q':
            b = {'k': 'q', 'ps': [self.text(doc, where='q')
                                  for _ in range(rng.choice([1, 1, 2]))]}
            if rng.random() < .25:
                b['bl'] = self.nest(doc, depth, True)['bl']
            return b
        if k == 'tb':
            c = rng.choice([1, 2, 3])
            return {'k': 'tb', 'al': [rng.choice(['', 'l', 'r', 'c'])
                                      for _ in range(c)],
                    'rows': [[self.text(None, plain=rng.random() < .7,
                                        where='td') for _ in range(c)]
                             for _ in range(rng.choice([2, 2, 3]))]}
        if k == 'code':
            self.n += 1
            b = {'k': 'code', 'lang': rng.choice(['', 'python', 'js']),
                 'lines': [f'x{self.tag}{self.n} = {i}'
                           for i in range(rng.choice([1, 1, 2]))]}
            r = rng.random()
            if r < .1:
                b['fence'] = rng.choice(['~~~', '````'])
            elif r < .2 and prev not in ('ul', 'ol', 'cmd', 'code', None):
                b['indented'] = True
            if rng.random() < .15:
                b['lines'] += rng.choice([['', 'y'], ['  z'], ['```'],
                                          ['# x', '- y'], ['> z', '***'],
                                          ['a\tb', 'z']])
            return b
        if k == 'hr':
            return {'k': 'hr'}
        self.n += 1
        raw = '<div>@</div>' if rng.random() < .5 else rng.choice(RAWS)
        return {'k': 'html', 's': raw.replace('@', f'raw{self.tag}{self.n}')}

    def arg(self):
        """A command argument, without what would end the comment."""
        arg = ' '.join([self.rng.choice(WORDS)
                        for _ in range(self.rng.choice([1, 1, 2]))])
        return arg + (self.rng.choice(PUNCT) if self.rng.random() < .2
                      else '')

    def commands(self, doc, block, state, ctxs):
        """Commands to put right before a block."""
        rng = self.rng
        out = []
        k = block['k']
        if rng.random() < .08:
            out.append({'k': 'cmd', 'name': 'disable'})
            state['disable'] = True
        elif rng.random() < (.5 if state.get('disable') else .03):
            out.append({'k': 'cmd', 'name': 'enable'})
            state['disable'] = False
        if rng.random() < .04:
            out.append({'k': 'cmd', 'name': rng.choice(
                ['include-codeblocks', 'disable-codeblocks'])})
            state['inc'] = out[-1]['name'] == 'include-codeblocks'
        if rng.random() < .07:
            self.n += 1
            out.append({'k': 'cmd', 'name': 'include',
                        'arg': f'inc{self.tag}{self.n} ' + self.arg()})
            if rng.random() < .3:
                out.insert(len(out) - 1, {'k': 'cmd', 'name': 'context',
                                          'arg': rng.choice(ctxs)})
            if rng.random() < (.7 if state.get('disable') else .3):
                out.insert(len(out) - 1, {'k': 'cmd', 'name': rng.choice(
                    ['disable-next-block', 'enable-next-block'])})
        if k == 'code':
            included = state.get('inc')
            r = rng.random()
            if r < .3:
                out.append({'k': 'cmd', 'name': 'include-codeblock'})
                included = True
            elif r < .4:
                out.append({'k': 'cmd', 'name': 'disable-codeblock'})
                included = False
        elif k in ('p', 'h', 'ul', 'ol', 'q', 'tb'):
            if rng.random() < .12:
                out.append({'k': 'cmd', 'name': 'context',
                            'arg': rng.choice(ctxs)})
            if rng.random() < .08:
                out.append({'k': 'cmd', 'name': 'translator',
                            'arg': 'note ' + (self.arg() if rng.random() < .8
                                              else ' '.join(rng.choices(
                                                  WORDS, k=24)))})
            r = rng.random()
            if r < .07:
                out.append({'k': 'cmd', 'name': rng.choice(
                    ['disable-next-block', 'disable-next-line'])})
            elif r < (.4 if state.get('disable') else .1):
                out.append({'k': 'cmd', 'name': rng.choice(
                    ['enable-next-block', 'enable-next-line'])})
            if out and rng.random() < .25:      # several of a kind, any order
                for _ in range(rng.choice([1, 1, 2])):
                    out.append({'k': 'cmd', 'name': rng.choice(
                        ['disable', 'enable', 'disable-next-block',
                         'enable-next-block', 'context', 'context'])})
                    if out[-1]['name'] == 'context':
                        out[-1]['arg'] = rng.choice(ctxs)
                rng.shuffle(out)
                for c in out:
                    if c['name'] in ('disable', 'enable'):
                        state['disable'] = c['name'] == 'disable'
        for c in out:
            if rng.random() < .1:
                c['tight'] = True
        return out

    def doc(self, size=None, commands=True, aliases=None, dangling=False,
            inc=False):
        rng = self.rng
        self.cmds = commands
        d = {'blocks': [], 'refs': []}
        ctxs = ['menu', 'month name', 'button',
                rng.choice(['0', '0', 'None', 'menu, file', 'a/b "c" (d)'])]
        state = {'inc': inc}
        prev = None
        dup = []
        for _ in range(size or rng.choice([1, 2, 3, 4, 5, 7])):
            b = self.block(d, prev)
            if dup and b['k'] in ('p', 'h') and rng.random() < .12:
                b['t'] = copy.deepcopy(rng.choice(dup))  # the same message again
            if b['k'] in ('p', 'h'):
                dup.append(b['t'])
            if commands and rng.random() < .5:
                cs = self.commands(d, b, state, ctxs)
                if cs:
                    prev = 'cmd'
                d['blocks'] += cs
            d['blocks'].append(b)
            prev = b['k']
        if dangling and not d['refs'] and not has_spans(d):
            d['dangling'] = True
            d['blocks'].append({'k': 'cmd', 'name': rng.choice(
                ['context', 'translator', 'disable', 'disable-next-block',
                 'enable-next-block', 'include-codeblock',
                 'disable-codeblock', 'include-codeblocks',
                 'disable-codeblocks']), 'arg': None})
            if d['blocks'][-1]['name'] in ('context', 'translator'):
                d['blocks'][-1]['arg'] = 'dangling ' + rng.choice(WORDS)
        if not d['refs']:
            del d['refs']
        if aliases:
            for b in d['blocks']:
                if b['k'] == 'cmd':
                    for al, target in aliases.items():
                        # their arguments have only words
                        if target in (b['name'], 'mdpo-' + b['name']) and \
                                not re.search(r'[^\w\s]', b.get('arg') or '') \
                                and rng.random() < .6:
                            b['as'] = al
        return d
