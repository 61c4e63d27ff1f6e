"""Writes MANIFEST.json (development helper; the result is committed)."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('deterministic simulation with fault injection: seeded search over '
        'simulated runs of the real code')
NOTES = {
    'C01': 'seeded fault placements on runs of real commands; old-or-new '
           'oracle per file',
    'C02': 'seeded histories with faults; translation conservation oracle',
    'C03': 'seeded schedules of concurrent processes with kills; candidate '
           'closure oracle',
    'C04': 'seeded thread schedules and nested calls; equality with the call '
           'alone',
    'C05': 'seeded error placements, short reads and writes, broken inputs; '
           'reference run oracle',
    'C06': 'seeded series of failed attempts; convergence to the clean run, '
           'idempotence, bounded operations',
    'C07': 'seeded histories; statuses and locations against an independent '
           'reading of the files',
    'C08': 'seeded histories and faults; composition of separate runs as '
           'oracle',
    'C09': 'same run in two simulated environments and hash seeds; equality '
           'oracle',
    'C10': 'seeded call sequences in one process with faults; fresh process '
           'oracle and residue list',
    'C11': 'seeded sets of sources; merge of separate extractions as oracle',
    'C12': 'seeded histories; reference extraction model',
    'C13': 'seeded histories; reference translation model compared after '
           'rendering',
    'C14': 'seeded callbacks (observing, raising, skipping); equality and '
           'propagation oracles',
    'C15': 'seeded histories; agreement of files, returned values and '
           'printed text',
    'C16': 'seeded histories of pages published from model documents; '
           'reference translation model compared after rendering',
}
NA = ('a pure function of its input: no schedule, clock, I/O, fault or '
      'history takes part, so simulation has nothing to decide')


def main():
    have = sorted(n[:-3].upper() for n in os.listdir(
        os.path.join(ROOT, 'sim', 'props')) if n.startswith('c'))
    props = []
    with open(os.path.join(ROOT, 'properties.jsonl'),
              encoding='utf-8') as f:
        props = [json.loads(x)['id'] for x in f]
    m = {
        'version': 1,
        'setup_cmd': 'python3 sim/main.py selftest',
        'checks': [{
            'property': p,
            'quick_cmd': f'python3 sim/main.py check {p} --tier quick',
            'thorough_cmd': f'python3 sim/main.py check {p} --tier thorough',
            'technique': TECH, 'level': 'exploration',
            'level_note': NOTES[p]} for p in props if p in have],
        'not_applicable': [{
            'property': p, 'reason': NA if p >= 'C20' else
            'check in preparation'} for p in props if p not in have],
        'notes': 'no hooks in /repo are needed: the seam patches the '
                 'interpreter of forked nodes',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w',
              encoding='utf-8') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
