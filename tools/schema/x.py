import json,re
d=json.load(open('/tmp/schema/schema.json'))
s=open('/repo/models/elements.go').read()+open('/repo/models/complexTypes.go').read()+open('/repo/models/groups.go').read()
# per element xsd comment preceding type
for m in re.finditer(r'/\*(.*?)\*/\s*type (\w+) ',s,re.S):
    c,n=m.groups()
    if n not in d: continue
    attrs=dict()
    for a in re.finditer(r'<xs:attribute ([^>]*)>',c):
        am=dict(re.findall(r'(\w+)="([^"]*)"',a.group(1)))
        if 'name' in am: attrs[am['name']]=am
    refs=set(re.findall(r'<xs:element [^>]*(?:ref|name)="([^"]*)"',c))
    groups=set(re.findall(r'<xs:group [^>]*ref="([^"]*)"',c))
    ka={a['x'] for a in d[n]['attrs']}
    kk={k['x'] for k in d[n]['kids']}
    bad=ka-set(attrs)
    if bad: print(n,'attrs not in xsd',bad)
    miss=set(attrs)-ka
    if miss and ka: print('   ',n,'attrs not kept',miss)
    bk={k for k in kk if k not in refs}
    if bk and not groups: print(n,'kids not in xsd',bk)
    for a in d[n]['attrs']:
        if a['x'] in attrs:
            df=attrs[a['x']].get('default')
            a['def']=df
            own=a['own'] if a['has'] else None
            if own not in (None,'','0','false',df) : print(n,a['x'],'own',own,'def',df)
for n,t in d.items():
    for a in t['attrs']:
        if n=='ChildParent' and a['x']=='isRecursive': a['k']='yesno'
        a['def']=a.get('def') or ''
for n in [k for k in d if d[k]['any']]: pass
d['Cell']={'attrs':[],'kids':[],'text':'*','any':False,'inner':''}
out={k:d[k] for k in sorted(d)}
open('/verif/spec/schema.json','w').write('{\n'+',\n'.join(' %s: %s'%(json.dumps(k),json.dumps(v,separators=(',',':'))) for k,v in out.items())+'\n}\n')
print(sum(len(v['kids']) for v in out.values()), max(len(v['kids']) for v in out.values()))
