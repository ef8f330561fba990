#!/usr/bin/env python3
"""Prints the coverage table of DESIGN.md from the evidence of the last runs."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| property | part | kind | states / inputs / schedules | transitions | depth | complete |')
print('|---|---|---|---|---|---|---|')
for f in sorted(glob.glob(here + '/evidence/P*.json')):
    d = json.load(open(f))
    groups = {}
    for p in d['coverage']['parts']:
        n = re.sub(r'\b(kind|comparator|pool|level|replicas|of|\() ?\d+( |,|$|\)| [a-z ]+\))', lambda m: m.group(1) + ' N' + m.group(2), p['name'])
        n = re.sub(r'histories \d$', 'histories N', n)
        n = re.sub(r'\(\d+ [a-z -]+\)', '(each kind)', n)
        n = re.sub(r'\( N[a-z ]+\)', '(each kind)', n)
        n = re.sub(r'^[a-z0-9 ]+, all values', 'T, all values', n)
        if d['property'] == 'P22':
            n = re.sub(r'^.*: all pairs and triples', 'each type: all pairs and triples', n)
        g = groups.setdefault((n, p['kind']), [0, 0, 0, True, 0])
        g[0] += p['states']; g[1] += p['transitions']; g[2] = max(g[2], p['depth']); g[3] &= p['exhaustive']; g[4] += 1
    for (n, k), g in groups.items():
        m = f' (×{g[4]})' if g[4] > 1 else ''
        print(f"| {d['property']} | {n}{m} | {k} | {g[0]:,} | {g[1]:,} | {g[2] or ''} | {'yes' if g[3] else 'up to a number of states'} |")
