"""fills the table of planted bugs in DESIGN.md from seeded/*/meta.json (marker SEEDTABLE)"""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property (its check catches it) | what it breaks | needs |', '|---|---|---|---|']
for p in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), m['property'] + m.get('note', ''), m['what_it_breaks'], m['needs']))
d = open(HERE + '/DESIGN.md').read()
i = d.index('<!-- SEEDTABLE -->')
j = d.index('<!-- /SEEDTABLE -->') if '<!-- /SEEDTABLE -->' in d else len(d)
open(HERE + '/DESIGN.md', 'w').write(d[:i] + '<!-- SEEDTABLE -->\n' + '\n'.join(rows) + '\n' + (d[j:] if j < len(d) else '<!-- /SEEDTABLE -->\n'))
