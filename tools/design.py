"""Regenerates the tables of DESIGN.md (planted changes, not-applicable list) between their markers."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'; s = open(p).read()
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    f = V + '/seeded/%s/meta.json' % d
    if not os.path.exists(f): continue
    j = json.load(open(f)); rows.append('| %s | %s | %s |' % (d, j['property'], re.sub(r'\s+', ' ', j['needs']).replace('|', '/')))
t = '| planted change | caught by | needs, to manifest |\n|---|---|---|\n' + '\n'.join(rows)
s = re.sub(r'(<!-- seeds -->\n).*?(\n<!-- end seeds -->)', lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
na = json.load(open(V + '/MANIFEST.json')).get('not_applicable', [])
t = '\n'.join('- **%s** %s' % (x.get('property'), x.get('reason')) for x in na) or '(none)'
s = re.sub(r'(<!-- na -->\n).*?(\n<!-- end na -->)', lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
