#!/usr/bin/env python3
"""Assembles DESIGN.md: design/head.md, the sections per property and on assumptions
(from bin/units.py, properties.jsonl and the units), seeded bugs, design/tail.md."""
import glob, json, os, re, sys
sys.path.insert(0, '/verif/bin')
from units import UNITS
WHY=dict(
C01='the tests encode a few dozen values in fresh containers; the contracts cover all 2^32 and 2^64 values at every position of every container kind.',
C02='the frame condition speaks about every byte outside the write at every position, which no test looks at.',
C03='every byte string of every length, including those no encoder produces, is an input of the proof.',
C04='sequences of any number and mix of fields; the lemma is an induction over the sequence.',
C05='alignment of the data in memory, tails of each stride and every split are quantified; the tests use six strings.',
C06='all 2^32 values.',
C07='every length, tail and seed, and element types wider than a byte.',
C08='both directions for every set of keys: no probe bit missing, no other bit set.',
C09='all pairs of strings; order axioms follow from the contract (lexicographic order).',
C10='all pairs of keys, prefixes and 0xFF runs included.',
C11='one inductive step from every state of the arena, so every sequence of requests.',
C12='any length and history: the representation invariant is kept by each operation.',
C13='hash collisions, chains and resizes in every configuration; use after free is an obligation.',
C14='all histories of charges and capacities.',
C15='all towers the random heights may give, all key sets.',
C16='every record length at every block offset; the tests write two records.',
C17='every sequence of records; induction over the file.',
C18='every content of the file.',
C19='all keys, types and sequence numbers.',
C20='all keys and values.',
C21='lists of any length in the edit.',
C22='all codes and message parts of every length.',
C23='every sequence of values and merges, one step each.',
C24='every state of the generator.',
C25='every history of block offsets and keys.',
C26='all strings and ranges, out-of-range ones included.',
C27='all strings and ranges.')

titles = {}
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    titles[d['id']] = d['title']
out = [open('/verif/design/head.md').read().rstrip(), '\n## 3. Per property\n']
for p in sorted(UNITS):
    u=UNITS[p]
    out.append('### %s %s\n'%(p,titles[p]))
    out.append('*Back ends*: '+u['technique']+'.')
    if u.get('verus'): out.append('*Verus units*: '+', '.join('`%s`'%x for x in u['verus'])+'.')
    if u.get('kani'): out.append('*Kani harnesses* (name patterns): '+', '.join('`%s`'%x for x in u['kani'])+('; thorough tier adds '+', '.join('`%s`'%x for x in u['kani_thorough']) if u.get('kani_thorough') else '')+'.')
    if u.get('fallback') and u.get('verus'):
        out.append('*Fallback*: '+'; '.join('%s → `%s`'%(a,'`, `'.join(b)) for a,b in u['fallback'].items() if a in u['verus'])+'.')
    out.append('*Functions under contract*: '+', '.join('`%s`'%x for x in u['functions'])+'.')
    out.append('*Specified and proved*: '+u['explanation']+'.')
    out.append('*Bounds*: '+('; '.join('`%s`: %s (labelled bounded)'%x for x in u['bounds'].items()) if u.get('bounds') else 'none on inputs, lengths or iterations beyond the trusted base below')+'.')
    out.append('*Trusted*: '+('; '.join(u['trusted']) if u['trusted'] else 'nothing beyond the common base')+'.')
    out.append('*Beyond the tests*: '+WHY[p]+'\n')

out.append('## 4. Assumptions of the Verus units\n\nEvery `//@assume` line of the units (also in the evidence):\n')
for f in sorted(glob.glob('/verif/verus/*.rs')):
    a = [l.strip()[len('//@assume '):] for l in open(f) if l.strip().startswith('//@assume ')]
    if a:
        out.append('* `%s`' % os.path.basename(f))
        out += ['  * ' + x for x in a]
out.append('\n## 5. Planted bugs and what catches them\n\nEach is in `seeded/<id>/` (patch, demonstration, meta) and was confirmed by `bin/seedcheck.py`: it applies, '
           'builds, passes the stable tests, and its demonstration fails with it and passes without. `bin/catch.sh` runs the check of its property against it. '
           'The last column is what the check reported: failed obligations, and whether a failing input was found on the real code.\n')
caught = json.load(open('/verif/design/caught.json'))
out.append('| seed | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    n = d.split('/')[-2]
    m = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'], caught.get(n, 'not run yet')))
out.append('')
out.append(open('/verif/design/tail.md').read().rstrip())
open('/verif/DESIGN.md', 'w').write('\n'.join(out) + '\n')
