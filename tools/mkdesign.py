"""Write DESIGN.md from tools/design.in.md, known_findings.json, the planted
bugs and tools/caught.json (which run of which check caught which).

Run from /verif: /opt/venv/bin/python tools/mkdesign.py"""
import json
import os
import re


def main():
    text = open('tools/design.in.md').read()
    rows = []
    for s in json.load(open('known_findings.json'))['fixed']:
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)$', s, re.S)
        rows.append('| %s | %s | %s |' % m.groups())
    text = text.replace('FIXED_TABLE', '\n'.join(rows))
    caught = json.load(open('tools/caught.json'))
    rows = ['| change | property | needs | caught by quick check, run |',
            '|---|---|---|---|']
    for d in sorted(os.listdir('seeded')):
        m = json.load(open('seeded/%s/meta.json' % d))
        c = caught.get(d)
        rows.append('| %s | %s | %s | %s |' % (
            d, m['property'], m['needs'].replace('|', '/'),
            'not caught' if c is None else ', '.join(
                '%s: %s' % x for x in sorted(c.items()))))
    text = text.replace('SEEDED_TABLE', '\n'.join(rows))
    open('DESIGN.md', 'w').write(text)


if __name__ == '__main__':
    main()
