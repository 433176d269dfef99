#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md (after the line '## Planted bugs')"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def caught(sid, prop):
    out = subprocess.run([os.path.join(HERE, 'tools', 'tryseed.sh'), sid], capture_output=True, text=True).stdout
    return '%s' % prop if ('%s %s exit 1' % (sid, prop)) in out else 'not caught'


def main():
    rows = []
    for sid in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', sid, 'meta.json')))
        files = sorted({l[6:].strip() for l in open(os.path.join(HERE, 'seeded', sid, 'patch.diff')) if l.startswith('+++ b/')})
        needs = ' '.join(str(m['needs']).split())
        breaks = ' '.join(str(m['what_it_breaks']).split())
        rows.append('| %s | %s | %s | %s | %s | %s |' % (sid, m['property'], ', '.join(os.path.basename(f) for f in files), breaks, needs, caught(sid, m['property'])))
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    a = s.index('<!-- seeds -->')
    b = s.index('<!-- end of seeds -->')
    s = s[:a] + '<!-- seeds -->\n\n| id | property | file | what it breaks | needs | caught by |\n|---|---|---|---|---|---|\n' + '\n'.join(rows) + '\n\n' + s[b:]
    open(p, 'w').write(s)


main()
