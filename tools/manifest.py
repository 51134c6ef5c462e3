"""Writes MANIFEST.json from the checks that exist (run: python3 tools/manifest.py)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUP = dict(H='healpix', T='tle', D='dates', S='sky', P='search', V='visibility', O='orbit')
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NA = {}
p = here + '/tools/not_applicable.json'
if os.path.exists(p):
    NA = json.load(open(p))
NOTES = json.load(open(here + '/tools/notes.json')) if os.path.exists(here + '/tools/notes.json') else {}
checks, na = [], []
for q in props:
    i = q['id']
    f = here + '/checks/%s.py' % GROUP[i[0]]
    if i not in NA and os.path.exists(f) and re.search(r'^def %s\(' % i, open(f).read(), re.M):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd='./check.py ' + i, thorough_cmd='VERIF_TIER=thorough ./check.py ' + i,
                           technique=n.get('technique', 'symbolic execution of the LLVM IR of the real functions over real arithmetic; path goals discharged by z3; counterexamples replayed natively'),
                           level='model_checking', level_note=n.get('note', 'all values within the bounds listed in the evidence; real arithmetic instead of rounding unless stated')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for this property yet')))
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)"', checks=checks, not_applicable=na,
         notes='Every check regenerates its encoding (LLVM IR via clang -emit-llvm, or CBMC goto program) from /repo on each run; nothing is cached between runs.')
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
