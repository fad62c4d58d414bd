"""Writes MANIFEST.json from vf/conf.json (claimed properties) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + '/vf/conf.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
    'C30': 'The resize filters (src/core/vsresize.cpp) need a newer zimg than this sandbox has, so they are not part of any build that can be made or run here; there is nothing to execute generated inputs against.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in conf:
        c = conf[i]
        checks.append(dict(property=i, quick_cmd=f'python3 -m vf.runner {i}', thorough_cmd=f'python3 -m vf.runner {i} --tier thorough', evidence_file=f'evidence/{i}.json',
                           technique=c['technique'], level='exploration', level_note=c['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check has been built for it yet.')))
hooks = {}
m = dict(version=1, setup_cmd='python3 vf/build.py rel asan', checks=checks, not_applicable=na,
         notes='Every check is seeded by VERIF_SEED and rebuilds /repo into /verif/.cache (keyed by content). Replay a reported case with: python3 -m vf.runner <id> --replay <path>.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
