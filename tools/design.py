#!/usr/bin/env python3
"""Writes the generated parts of DESIGN.md from DESIGN.in.md, props.py and seeded/."""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = props.V

REACH = {}
exec(open(os.path.join(V, 'tools', 'design_notes.py')).read())


def main():
    out = []
    for p in props.P:
        n = REACH.get(p['id'], {})
        out.append('### %s %s\n' % (p['id'], p['title']))
        for k, t in (('Specified', n.get('spec', '')), ('Binding', n.get('bind', p['_t'] + '.')), ('Bounds', n.get('bounds', p['_n'])),
                     ('Cost', n.get('cost', '')), ('Why beyond tests', n.get('why', ''))):
            if t:
                out.append('* %s: %s' % (k, t))
        out.append('')
    seeds = ['| bug | property | needs | caught |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        seeds.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), CAUGHT.get(i, 'yes')))
    s = open(os.path.join(V, 'DESIGN.in.md')).read()
    s = s.replace('%PROPS%', '\n'.join(out)).replace('%SEEDS%', '\n'.join(seeds)).replace('%MORE%', MORE.strip())
    open(os.path.join(V, 'DESIGN.md'), 'w').write(s)


main()
