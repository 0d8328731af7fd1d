#!/opt/veriftools/pyvenv/bin/python
"""writes properties.jsonl and MANIFEST.json from meta.py and props/*.py"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import meta
sys.setrecursionlimit(10000)
out = open(os.path.join(HERE, 'properties.jsonl'), 'w')
checks, na = [], []
for id, p in sorted(meta.P.items()):
    d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
    d['anchors'] = dict(d['anchors'], mechanism=[{'name': x, 'where': p['anchors']['files'][0]} for x in p['anchors']['mechanism']])
    out.write(json.dumps(d) + '\n')
    f = os.path.join(HERE, 'props', id + '.py')
    if os.path.exists(f) and id not in getattr(meta, 'NA', {}):
        M = importlib.import_module('props.' + id)
        lvl = getattr(M, 'LEVEL', 'proof')
        note = getattr(M, 'NOTE', None) or ('Contracts on the functions that run, extracted as LLVM IR from the current source; every obligation discharged by z3/cvc5 for all inputs and iterations. '
                'Bounded stand-in only for: %s. Trusted: clang front end, the VC generator, the solvers, and the assumptions listed in the evidence.' % getattr(M, 'BOUNDED', 'nothing (the harness only replays)'))
        checks.append({'property': id, 'quick_cmd': 'python3-vt check.py %s --tier quick' % id, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % id,
                       'evidence_file': 'evidence/%s.json' % id, 'technique': getattr(M, 'TECHNIQUE', 'contract-based deductive verification (VC generation over LLVM IR, z3/cvc5), counterexample replay by native model-based harness'),
                       'level': lvl, 'level_note': note})
    else:
        na.append({'property': id, 'reason': getattr(meta, 'NA', {}).get(id, 'contracts for this part are not built yet; nothing is claimed')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5" && chmod +x check.py', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
