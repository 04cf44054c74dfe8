# Authoring helper (run by hand): writes DESIGN.md
import json, os, sys
from checkdefs import CHECKS
props = [json.loads(l) for l in open('properties.jsonl')]
times = {}
try:
    for l in open('/tmp/all.out'):
        p = l.split(); times[p[0]] = p[2]
except Exception: pass
try: old = json.load(open('design_times.json'))
except Exception: old = {}
old.update(times); json.dump(old, open('design_times.json', 'w'), indent=0, sort_keys=True)
out = open('design_head.md').read() + '\n## Properties\n\n'
REACH = 'Tests sample a handful of keys, 32-byte messages and no faults; this ranges over every path and content at once.'
for p in sorted(props, key=lambda p: p['id']):
    i = p['id']; out += '### %s %s\n\n' % (i, p['title'])
    if i not in CHECKS:
        out += 'Not applicable, see below.\n\n'; continue
    c = CHECKS[i]
    out += '* Technique (%s): %s.\n* Rule: %s.\n* Analysed: %s.\n* Bounds: %s\n* Trusted: %s.\n* Cost: %s (quick).\n\n' % (c['level'], c['technique'], c['rule'], c['explains'], c['note'], '; '.join(c['trusted']), old.get(i, 'a few seconds'))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open('design_caught.json')) if os.path.exists('design_caught.json') else {}
for d in sorted(os.listdir('seeded') + os.listdir('seeded-more')):
    m = json.load(open('%s/%s/meta.json' % ('seeded' if os.path.exists('seeded/' + d) else 'seeded-more', d))); rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], ', '.join(caught.get(d, [m['property']]))))
out += open('design_tail.md').read().replace('SEEDTABLE', '\n'.join(rows)).replace('MUT3', sys.argv[1] if len(sys.argv) > 1 else '20')
open('DESIGN.md', 'w').write(out)
