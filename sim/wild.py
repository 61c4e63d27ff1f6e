"""Markdown text outside of the reference model.

Only checks whose oracle compares runs of the tool with each other use it:
nothing here says what a correct result looks like.
"""

W = ('one two three four five six seven eight nine ten bread water stone '
     'river señal größe 日本 été file-name v1.0 a_b C# 100% x*y').split()


class Wild:
    def __init__(self, rng, latin=False, open_end=False):
        self.r = rng
        self.latin = latin
        self.open_end = open_end
        self.n = 0

    def word(self):
        w = self.r.choice(W)
        if self.latin and any(ord(c) > 255 for c in w):
            return 'latin'
        return w

    def words(self, a=1, b=5):
        return ' '.join(self.word() for _ in range(self.r.randrange(a, b)))

    def span(self, depth=0):
        r = self.r
        k = r.randrange(24)
        w = self.words()
        if depth < 2 and r.random() < .25:
            w = self.inline(depth + 1, 3)
        if k < 8:
            return w
        url = r.choice(['https://e.org/a', 'b.html', '#frag', 'a%20b'])
        title = r.choice(['', '', ' "title"', " 'two words'",
                          ' "quo\\"ted"', ' "a \'b\'"'])
        return [
            f'*{w}*', f'**{w}**', f'_{w}_', f'__{w}__', f'***{w}***',
            f'`{self.words()}`', f'``a`{self.word()}``', f'~~{w}~~',
            f'[{w}]({url}{title})', f'![{self.words()}]({url}{title})',
            f'<https://auto.org/{r.randrange(9)}>', f'${self.word()}$',
            f'[[{self.word()}]]', f'[[{self.word()}|{self.word()}]]',
            f'\\*{w}\\_', '&copy; &amp; &#35;', f'<b>{self.word()}</b>',
            f'[![{self.word()}](i.png)]({url})', f'[{w}][ref1]', '[ref1]',
        ][k - 8] if k - 8 < 20 else w

    def inline(self, depth=0, n=5):
        return ' '.join(self.span(depth)
                        for _ in range(self.r.randrange(1, n)))

    def para(self):
        r = self.r
        out = self.inline()
        for _ in range(r.choice([0, 0, 1, 2])):
            out += r.choice(['\n', '\n', '  \n', '\\\n']) + self.inline()
        return out

    def indent(self, text, pad):
        return '\n'.join(pad + x if x else x for x in text.split('\n'))

    def lst(self, depth):
        r = self.r
        kind = r.choice(['- ', '* ', '+ ', '1. ', '7) '])
        sep = r.choice(['\n', '\n', '\n\n'])
        items = []
        for i in range(r.choice([1, 2, 3])):
            t = r.choice(['', '', '', '[ ] ', '[x] ']) if len(kind) == 2 \
                else ''
            body = t + (self.para() if r.random() < .3 else self.inline())
            if depth < 2 and r.random() < .3:
                body += sep + self.block(depth + 1)
            items.append(kind + self.indent(body, ' ' * len(kind))[
                len(kind):])
        return sep.join(items)

    def table(self):
        r = self.r
        n = r.choice([1, 2, 3])

        def row():
            return '| ' + ' | '.join(self.span(2).replace('|', '')
                                     for _ in range(n)) + ' |'
        return '\n'.join([row(), '|' + '|'.join(
            r.choice(['---', ':-:', '--:']) for _ in range(n)) + '|'] +
            [row() for _ in range(r.choice([0, 1, 2]))])

    def command(self):
        r = self.r
        return '<!-- ' + r.choice([
            'mdpo-disable-next-line', 'mdpo-disable-next-block',
            'mdpo-enable-next-block', 'mdpo-disable', 'mdpo-enable',
            'mdpo-enable', f'mdpo-context {self.word()}',
            f'mdpo-translator {self.words()}',
            f'mdpo-include {self.words()}', 'mdpo-include-codeblock',
            'mdpo-disable-codeblock', 'mdpo-include-codeblocks',
            'mdpo-disable-codeblocks']) + ' -->'

    def block(self, depth=0):
        r = self.r
        k = r.randrange(16)
        if k < 5:
            return self.para()
        if k == 5:
            return '#' * r.randrange(1, 7) + ' ' + self.inline(n=3)
        if k == 6:
            return self.words() + '\n' + r.choice(['===', '---'])
        if k < 9:
            return self.lst(depth)
        if k == 9:
            return self.indent(self.block(depth + 1) if depth < 2
                               else self.para(), '> ').replace('\n\n',
                                                               '\n>\n')
        if k == 10:
            f = r.choice(['```', '~~~', '````'])
            return (f'{f}{r.choice(["", "python", "js a=1"])}\n'
                    f'{self.words()}\n\n  {self.words()}\n{f}')
        if k == 11:
            return self.indent(self.words() + '\n' + self.words(), '    ')
        if k == 12:
            return r.choice(['---', '***', '<div>\n' + self.words() +
                             '\n</div>', '<br>', '<p align="center">x</p>'])
        if k == 13:
            return self.table() if depth == 0 else self.para()
        if k == 14 and depth == 0:
            return self.command()
        if k == 15 and depth == 0 and r.random() < .5:
            return f'[ref1]: https://ref.org/{r.choice("abc")}' + \
                r.choice(['', ' "Ref title"'])
        return self.para()

    def text(self, n=None):
        r = self.r
        out = '\n\n'.join(self.block() for _ in range(
            n or r.choice([1, 2, 4, 7]))) + '\n'
        if r.random() < .1:
            out = out.rstrip('\n')
        if self.open_end:
            out = out.rstrip('\n') + '\n' + r.choice([
                '', '\n' + self.command() + '\n',
                '\n```python\nx = 1\n', '\n<div>\nopen\n', '\n> quote',
                '\n<!-- mdpo-disable -->\n\n' + self.para() + '\n',
                '\n## ' + self.words(), '\n- item\n  - sub',
                '\n<!-- unclosed\n', '\n**open ' + self.words(),
                '\n`open', '\n| a | b |\n|---|---|\n| ' + self.word()])
        return out
