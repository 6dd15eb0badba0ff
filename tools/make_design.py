"""Writes DESIGN.md from tools/design_*.md, known_findings.json and tools/seeded_results.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, 'tools')
read = lambda n: open(os.path.join(T, n)).read()
out = read('design_head.md') + read('design_props.md')
F = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
out += '## Defects of sods/paramz found\n\nRepaired in `/repo` ("fix:" commits, %d); each was first shown by the check named, and reverting the commit makes it fail again (column 3: which checks, tested at seed 1).\n\n' % sum(f['status'] == 'fixed' for f in F)
out += '| property | commit | checks failing when reverted | what failed |\n| --- | --- | --- | --- |\n'
rv = json.load(open(os.path.join(T, 'revert_results.json'))) if os.path.exists(os.path.join(T, 'revert_results.json')) else {}
for f in F:
    if f['status'] == 'fixed':
        out += '| %s | %s | %s | %s |\n' % (f['property'], f['commit'], rv.get(f['commit'], ''), f['what'])
out += '\nRecorded as known findings (too invasive to repair safely):\n\n'
for f in F:
    if f['status'] == 'known':
        out += '* %s: %s\n' % (f['property'], f['what'])
out += '\n' + read('design_tail.md')
S = json.load(open(os.path.join(T, 'seeded_results.json'))) if os.path.exists(os.path.join(T, 'seeded_results.json')) else {}
out += '## Planted bugs and the checks which catch them\n\nIn `seeded/`; written from the property text and the code. "caught by" lists the quick checks which report a violation (seed 1); the check of the property itself comes first.\n\n| planted bug | what it breaks | caught by |\n| --- | --- | --- |\n'
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))) if os.path.isdir(os.path.join(HERE, 'seeded')) else []:
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    out += '| %s | %s | %s |\n' % (d, m['what_it_breaks'].replace('|', '/').replace('\n', ' '), S.get(d, '?'))
notes = os.path.join(T, 'design_notes.md')
if os.path.exists(notes):
    out += '\n' + open(notes).read()
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(out)
