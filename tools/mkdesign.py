"""refresh the generated parts of DESIGN.md: counts of section 3 (from evidence/) and the bug table of section 6"""
import json, re, glob, os
os.chdir('/verif')
s = open('DESIGN.md').read()
for f in sorted(glob.glob('evidence/C*.json')):
    p = os.path.basename(f)[:-5]
    c = json.load(open(f)).get('coverage', {})
    s = re.sub(r'(?m)^\| %s \| \d+/\d+ \|' % p, f"| {p} | {c['obligations']}/{c['discharged']} |", s)
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
res = json.load(open('tools/bugresults.json')) if os.path.exists('tools/bugresults.json') else {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    i = f.split('/')[1]
    d = json.load(open(f))
    need = ' '.join(str(d['needs']).split()).replace('|', '/')
    rows.append(f"| {i} | {d['property']} | {need} | {res.get(i, '')} |")
s = re.sub(r'(?s)<!-- bugs -->.*<!-- /bugs -->', '<!-- bugs -->\n' + '\n'.join(rows).replace('\\', '\\\\') + '\n<!-- /bugs -->', s)
open('DESIGN.md', 'w').write(s)
