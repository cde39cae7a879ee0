"""Rewrites the generated tables of DESIGN.md: repairs (known_findings.txt) and planted bugs (seeded/*/meta.json, tools/catches.json)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fixes():
    out = ['| Property | Commit | What failed |', '|---|---|---|']
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if m:
            out.append('| %s | %s | %s |' % m.groups())
    return out


def seeded():
    catches = json.load(open(os.path.join(HERE, 'tools', 'catches.json')))
    out = ['| Bug | Property | Needs | Reported by |', '|---|---|---|---|']
    d = os.path.join(HERE, 'seeded')
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), ', '.join(catches.get(n, [])) or 'none'))
    return out


def main():
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    for name, rows in (('fixes', fixes()), ('seeded', seeded())):
        a, b = '<!-- %s -->\n' % name, '<!-- end %s -->' % name
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + '\n'.join(rows) + '\n' + s[j:]
    open(p, 'w').write(s)


if __name__ == '__main__':
    main()
