import json,collections,sys,re
c=collections.Counter(); ex={}
ks=sys.argv[2:]
for l in open(sys.argv[1]):
    v=json.loads(l); k=v['case']
    d=v['detail'] if isinstance(v['detail'],dict) else {}
    key=(v['what'],v['at'],re.sub(r'\d+','#',d.get('message','')[:80]))+tuple(json.dumps(k.get(a)) for a in ks)
    c[key]+=1; ex.setdefault(key,v)
for k,n in sorted(c.items(),key=str)[:14]:
    print((str(n)+' '+str(k))[:260]); print(('      '+json.dumps(ex[k]['case'])[:260]+' '+ json.dumps(ex[k]['detail']))[:330])
