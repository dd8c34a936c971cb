#!/usr/bin/env python3
"""Assembles DESIGN.md: head, the table of properties, tail."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vp')); sys.dont_write_bytecode = True
from checks import CHECKS  # noqa: E402
ORACLE = {
    'C01': 'a plain array of bytes next to the list; every element read back after every operation',
    'C02': 'a byte model of contents, length and capacity; contents compared after every resize and write',
    'C03': 'ownership by counting blocks; comparison against a lexicographic reference; sorted result ordered and a permutation',
    'C04': 'a byte model of the text; user buffers in blocks of exact size, so that any access outside is seen',
    'C05': 'the pieces recomputed from the text character by character',
    'C06': 'left to right scan written in the harness, on the same text',
    'C07': 'the text itself (formats with %s and %d), cut at the limit; a reference comparison of lower-cased characters; ASCII ranges',
    'C08': 'block counting allocator; contents compared byte by byte at a symbolic index',
    'C09': 'a one-variable environment that records what was set and may refuse',
    'C10': 'an association list; the hash function is arbitrary (a symbolic value per key)',
    'C11': 'an association list of strings; block counts give ownership',
    'C12': 'the message, file and decimal digits built in the harness; line numbers enter as digits, so that printing them is decided without division',
    'C13': 'each thread checks its own message, file and line after every step',
    'C14': 'FIPS 180-4 written from the standard (checked on its examples), equality of digests proved by SAT sweeping',
    'C15': 'integer arithmetic in the harness over the stand-in clock',
    'C16': 'times enter as digits; the output must be these digits',
    'C17': 'concatenation in the harness, byte by byte',
    'C18': 'the mode and size that the stand-in stat reports',
    'C19': 'the sum over the harness\'s own tree, by depth',
    'C20': 'a linker with one library and one symbol that counts references; block and handle counts',
    'C21': 'the documented walk to the closest ancestor over an explicit table of levels',
    'C22': 'scan of the text in the harness; texts in blocks of exact size',
    'C23': 'scan of the arguments in the harness',
    'C24': 'ordered, a permutation (counting), and the comparison only sees pointers into the array',
    'C25': 'prefix of the system text',
    'C26': 'the part after the last slash',
    'C27': 'an expander of formats written from the documentation in the harness',
    'C28': 'severity >= effective level; the handler records its arguments',
    'C29': 'a decision table over the three variables and the terminals',
    'C30': 'the expected line; captured streams',
    'C31': 'a counter per place and the conditions of the documentation',
    'C32': 'the six names, upper-cased comparison',
    'C33': 'a counter in the harness; over all threads exactly one failure',
    'C34': 'each operation either reports failure or has its documented effect; block counts',
    'C35': 'plain arithmetic; over threads the sum of all updates and the set of values seen',
    'C36': 'the output is a merge of the expected lines',
    'C37': 'the text built byte by byte from the arguments and the earlier error string, cut at the documented limits; captured streams',
}
COST = {}
for p in CHECKS:
    try:
        e = json.load(open('%s/evidence/%s.json' % (V, p)))
        if e['tier'] == 'quick':
            COST[p] = max(1, round(e['wall_s']))
    except Exception:  # noqa: BLE001
        pass
cost_file = os.path.join(V, 'tools', 'cost.json')
old = json.load(open(cost_file)) if os.path.exists(cost_file) else {}
old.update(COST)
json.dump(old, open(cost_file, 'w'), indent=0, sort_keys=True)
title = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    title[p['id']] = p['title']
out = open(V + '/tools/design_head.md').read()
out += '| id | property | oracle | bounds (quick tier unless said otherwise) | s |\n|---|---|---|---|---|\n'
for p in sorted(CHECKS):
    out += '| %s | %s | %s | %s | %s |\n' % (p, title[p], ORACLE[p], CHECKS[p]['bounds'], old.get(p, '?'))
tail = open(V + '/tools/design_tail.md').read()
seeds = '| planted bug | check | needs |\n|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds += '| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'])
out += tail.replace('SEEDTABLE', seeds.rstrip())
open(V + '/DESIGN.md', 'w').write(out)
