import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
m=sorted(b-set(o['passed'])); print(len(b),'stable;',len(m),'missing',m[:10]); sys.exit(bool(m))
