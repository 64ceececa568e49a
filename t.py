import sys, importlib, json, os
sys.path.insert(0,'/verif')
from pyvc.contracts import verify, prove_lemma
m=importlib.import_module('specs.'+sys.argv[1])
sel=sys.argv[2:]
for c in m.CONTRACTS:
    if sel and not any(x in c.label() for x in sel): continue
    if getattr(c,'assumed',False): continue
    r=verify(c,m.CONTRACTS+list(getattr(m,'EXTRA',[])),budget=float(os.environ.get("B","150")))
    print(c.label(), r.status, r.reason or '', 'paths',r.paths,'wall %.1f'%r.wall, r.backends, 'inl',[x.split('.')[-1] for x in r.inlined],'used',[x.split('.')[-1] for x in r.used])
    for o in r.obligations:
        print('    ',o['status'],o['backend'],o['paths'],o['name'])
        if o['status']!='proved' and '-v' in sys.argv or o['status']!='proved': print(json.dumps(o['detail'],indent=1)[:3000])

for l in getattr(m,'LEMMAS',[]):
    if sel and not any(x in l.name for x in sel): continue
    r=prove_lemma(l); print(l.name,r.status,'%.1f'%r.wall)
    for o in r.obligations:
        if o['status']!='proved': print('   ',o)
