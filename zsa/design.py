"""Fill the tables of DESIGN.md (between markers) from registry and seeded/."""
import json
import os
import re
from .registry import PROPS, NOT_CLAIMED

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def block(s, name, text):
    pat = re.compile(r'(<!-- %s -->\n).*?(\n<!-- /%s -->)' % (name, name),
                     re.S)
    if not pat.search(s):
        s = s.replace('@@%s@@' % name, '<!-- %s -->\n\n<!-- /%s -->' %
                      (name, name))
    return pat.sub(lambda m: m.group(1) + text + m.group(2), s)


def main():
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read()
    rows = ['| id | property | decided by | what is analysed | bounds |',
            '|----|----------|------------|------------------|--------|']
    for k in sorted(PROPS):
        q = PROPS[k]
        if not q['na']:
            rows.append('| %s | %s | %s | %s | %s |' % (
                k, q['title'], q['technique'], q['explain'], q['note']))
    s = block(s, 'TABLE', '\n'.join(rows))
    s = block(s, 'NA', '\n'.join('* %s' % x for x in (
        ['%s (%s): %s' % (k, PROPS[k]['title'], PROPS[k]['na'])
         for k in sorted(PROPS) if PROPS[k]['na']] + NOT_CLAIMED)))
    rows = ['| planted bug | property | needs | caught by |',
            '|---|---|---|---|']
    d = os.path.join(ROOT, 'seeded')
    res = {}
    f = os.path.join(ROOT, 'seed_results.json')
    if os.path.exists(f):
        res = json.load(open(f))
    for x in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        m = json.load(open(os.path.join(d, x, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (
            x, m['property'], m['needs'], res.get(x, '?')))
    s = block(s, 'SEEDS', '\n'.join(rows))
    open(p, 'w').write(s)


if __name__ == '__main__':
    main()
