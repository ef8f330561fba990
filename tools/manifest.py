#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property of mc/plan/plan.go."""
import json, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
planned = set(re.findall(r'"(P\d\d)"', open(here + '/mc/plan/plan.go').read()))
H = 'explicit-state search over operation histories of the real code (stateful, fingerprinted), each step compared with a reference model'
E = 'exhaustive enumeration of a bounded input space on the real code against a reference oracle'
S = 'stateless model checking of the real code under a controlled scheduler: all schedules up to a preemption bound, linearizability decided on each history'
R = 'the same controlled schedules with a happens-before race detector as the oracle'
T = {p: H for p in ['P01','P02','P03','P04','P05','P06','P07','P08','P09','P10','P11','P12','P13','P14','P16','P17','P18']}
T |= {p: E for p in ['P21','P22','P24','P25','P26','P27','P28','P29','P37']}
T |= {'P15': H + '; exhaustive pairs of operands', 'P19': H + '; exhaustive enumeration of parameters', 'P20': H + ' over all membership histories; exhaustive node sets', 'P23': H + ' of iterator steps, every container and position', 'P35': H + ' over interleaved operations on both objects', 'P39': 'exhaustive enumeration of pairs of words of operations, each repeated thousands of times on the real code, the reachable object graph measured against a bound', 'P40': 'exhaustive enumeration of words and pairs of words of operations, each repeated thousands of times on the real code built so that it counts its statements, the work per operation when large measured against that when small', 'P36': E + '; all histories of assignments to three pairs'}
T |= {'P30': S, 'P31': S, 'P32': S, 'P33': R, 'P38': R, 'P34': S}
note = {
 'default': 'Complete within the stated bounds; the histories, inputs or schedules are executed on the implementation itself, so there is no model to keep in step. Bounds and counts are in the evidence file.',
 'conc': 'Complete for the listed scenarios within the preemption bound at statement granularity (sequential consistency); the real code runs with its sync primitives replaced by controlled ones.',
}
checks = []
for p in sorted(planned):
    checks.append({
        'property': p, 'quick_cmd': f'./check.sh {p} -tier quick', 'thorough_cmd': f'./check.sh {p} -tier thorough',
        'evidence_file': f'evidence/{p}.json', 'technique': T[p], 'level': 'model_checking',
        'level_note': note['conc' if T[p] in (S, R) else 'default'],
    })
allp = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
na = [{'property': p, 'reason': 'check under construction'} for p in allp if p not in planned]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
