import json,sys,collections
V=[json.loads(l) for l in open(sys.argv[1])]
g=collections.defaultdict(list)
for v in V: g[(v['what'],v['at'])].append(v)
for k,vs in g.items():
    print(len(vs),k, vs[0]['detail'].get('message','') if isinstance(vs[0]['detail'],dict) else '', (vs[0]['detail'] or {}).get('where','') if isinstance(vs[0]['detail'],dict) else '')
    keys=sorted({a for v in vs for a in v['case']})
    for a in keys:
        c=collections.Counter(json.dumps(v['case'].get(a)) for v in vs)
        if len(c)<=12: print('     ',a,dict(c.most_common(12)))
        else: print('     ',a,len(c),'values e.g.',list(c)[:3])
    print('   e.g.',json.dumps(vs[0])[:600])
