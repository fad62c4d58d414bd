import json, sys
# usage: addconf.py ID rule technique note [json extra]
p = '/verif/vf/conf.json'
c = json.load(open(p))
d = c.get(sys.argv[1], {})
d.update(rule=sys.argv[2], technique=sys.argv[3], note=sys.argv[4])
if len(sys.argv) > 5:
    d.update(json.loads(sys.argv[5]))
c[sys.argv[1]] = d
json.dump(dict(sorted(c.items())), open(p, 'w'), indent=1)
