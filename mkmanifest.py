# Authoring helper (run by hand): writes MANIFEST.json from checkdefs.py and properties.jsonl
import json
from checkdefs import CHECKS
NA = {'C30': 'Correctness of the lattice, hash-tree and curve arithmetic over all keys and messages (sign then verify returns true) is a numerical fact about polynomial, field and hash computations that no static rule here decides; its structural clauses are decided under C14, C16, C18, C24, C26 and C27.'}
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, technique=c['technique'], level=c['level'], level_note=c['note'] + ' Trusted: ' + '; '.join(c['trusted']) + '.'))
        NA.pop(i, None)
na = [dict(property=i, reason=NA.get(i, 'check not built yet')) for i in ids if i not in CHECKS]
json.dump(dict(version=1, setup_cmd='make -s -j8 build/pqa', checks=checks, not_applicable=na, notes='No hooks: the checks read the unmodified sources. known-findings.txt lists recorded and repaired defects.'), open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
print([c['property'] for c in checks], [n['property'] for n in na])
