#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place for both)."""
import json, os
from checks import CHECKS
HERE = os.path.dirname(os.path.abspath(__file__))
G = ['src/jstd/hashmap/group15_flat_map.hpp', 'src/jstd/hashmap/group15_flat_table.hpp',
     'src/jstd/hashmap/group16_flat_map.hpp', 'src/jstd/hashmap/group16_flat_table.hpp']
GG = ['src/jstd/hashmap/flat_map_group15.hpp', 'src/jstd/hashmap/flat_map_group16.hpp']
GI = ['src/jstd/hashmap/flat_map_iterator15.hpp', 'src/jstd/hashmap/flat_map_iterator.hpp']
SP = ['src/jstd/hashmap/map_slot_policy.h', 'src/jstd/hashmap/slot_policy_traits.h', 'src/jstd/hashmap/flat_map_slot_policy.hpp']
R = ['src/jstd/hashmap/robin_hash_map.h']
ST = ['src/jstd/string/string_utils.h', 'src/jstd/string/string_libc.h', 'src/jstd/string/string_stl.h', 'src/jstd/string/char_traits.h', 'src/jstd/string/string_traits.h']
PBT = 'stateful property-based testing against a reference model'

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=PBT, note=''):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                observe=observe, technique=technique, note=note)

PROPS = []
exec(open(os.path.join(HERE, 'props_table.py')).read())

NOT_APPLICABLE = [dict(property=p, reason=r) for p, r in NA]

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         state=[dict(name=n, meaning=m, where=w) for n, m, w in p['state']],
                         observe_at=list(p['observe']), hook_needed=None))) + '\n')
checks = []
for p in PROPS:
    if p['id'] not in CHECKS:
        continue
    c = CHECKS[p['id']]
    checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'],
                       thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=p['technique'],
                       level=c.get('level', 'exploration'), level_note=p['note'] or
                       'Search over generated cases: no counterexample among those generated; assumes the stated domain of the '
                       'generator and trusts the reference model, the compiler and AddressSanitizer.'))
m = dict(version=1, setup_cmd='python3 -c "import checks"',
         hooks=dict(guard='none', enable='no hooks: the harnesses include the headers of /repo/src as they are', source_commits=[]),
         checks=checks, not_applicable=NOT_APPLICABLE,
         notes='Each check compiles its harness from /repo/src (headers of the working tree), runs seeded generated cases in 8 '
               'worker processes under AddressSanitizer, shrinks a failure and writes the replay file. See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
