"""Writes the tables of DESIGN.md (findings, planted bugs) in place."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table(name, text, lines):
    b, e = f'<!-- {name} -->', f'<!-- end {name} -->'
    i, j = text.index(b), text.index(e)
    return text[:i + len(b)] + '\n' + '\n'.join(lines) + '\n' + text[j:]


def main():
    p = os.path.join(ROOT, 'DESIGN.md')
    t = open(p, encoding='utf-8').read()
    f = json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']
    t = table('findings', t, ['', '| id | property | commit | what failed |',
                              '|---|---|---|---|'] + [
        f'| {x["id"]} | {x["property"]} | {x.get("commit", "recorded")} | '
        f'{x["what"]} |' for x in f] + [''])
    notes = json.load(open(os.path.join(ROOT, 'dev', 'bug_notes.json')))
    rows = []
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', ''))):
        m = json.load(open(os.path.join(d, 'meta.json')))
        n = os.path.basename(d.rstrip('/'))
        rows.append(f'| {n} | {m["what_it_breaks"]} | {m["needs"]} | '
                    f'{notes.get(n, m["property"])} |')
    t = table('bugs', t, ['', '| bug | what it breaks | needs | caught by |',
                          '|---|---|---|---|'] + rows + [''])
    open(p, 'w', encoding='utf-8').write(t)


main()
