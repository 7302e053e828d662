"""Rewrites the generated sections of DESIGN.md (defects repaired, planted changes) from
known_findings.txt and seeded/*/meta.json.  Development tool."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
s = open(p).read()


def put(s, name, text):
    a, b = '<!-- %s -->\n' % name, '<!-- /%s -->\n' % name
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + text + s[j:]


fixed = [l[7:].strip() for l in open(V + '/known_findings.txt') if l.startswith('fixed: ')]
rows = sorted(re.match(r'property=(C\d+) (\S+) (.*)', l).groups() for l in fixed)
s = put(s, 'fixed', '| property | commit | what failed |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % (a, b, c.replace('|', '/')) for a, b, c in rows))
out = '| change | what it breaks | needs | caught by |\n|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    out += '| %s | %s | %s | %s |\n' % (f.split('/')[-2], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m.get('caught', m['property']))
s = put(s, 'seeded', out)
open(p, 'w').write(s)
