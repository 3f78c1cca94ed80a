import json
ids=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={}
PY=('C21','C27','C28','C29')
checks=[]
for o in ids:
    if o['id'] in NA: continue
    checks.append(dict(property=o['id'],quick_cmd='bin/check.sh %s quick'%o['id'],thorough_cmd='bin/check.sh %s thorough'%o['id'],
      technique='contract-based deductive verification of the real Python functions (symbolic execution of their source against contracts, loops as folds over lists of any length, callee contracts at calls, z3 for arithmetic)' if o['id'] in PY else 'contract-based deductive verification of the MIR of the real functions (symbolic execution against contracts, loops as folds with invariants, callee contracts at calls)',
      level='proof',
      level_note='Every obligation of the contracts this property rests on is discharged for all inputs on every run, from the source of the current tree. Trusted: the engine pyv, its models of built-in functions, pyspark and pydantic as uninterpreted calls, the specifications; contracts out of reach fall back to a labelled bounded check listed in the evidence.' if o['id'] in PY else 'Every obligation of the contracts this property rests on is discharged for all inputs on every run, from the MIR of the current source. Trusted: rustc MIR, the engine mirv, models of std/pyo3/regex functions, the specifications; contracts out of reach fall back to a labelled bounded check listed in the evidence.'))
json.dump(dict(version=1,setup_cmd='bin/setup.sh',checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes='No hooks in /repo: the checks read the MIR of the unmodified crate. Repairs of defects are the fix: commits listed in known_findings.txt.'),open('/verif/MANIFEST.json','w'),indent=1)
