import sys,time
sys.path.insert(0,'/verif')
from sa.models import *
from sa.project import show
from collections import Counter
e=make_engine()
for n in SPECS if len(sys.argv)<2 else sys.argv[1:]:
    t=time.time(); e.events.clear(); e.steps=0
    m=Model(e,n,{"flavor":"mu"} if n=='RHNeutrino' else None)
    print('=====',n,time.time()-t,e.steps)
    for meth,args in (('list_annihilation_final_states',[]),('list_decay_final_states',[]),('partial_widths',[]),('decay_widths',[]),('annihilation_cross_sections',[atom('Q',M)])):
        c=m.cls.lookup(meth)[0]
        if c is None: continue
        t=time.time(); e.steps=0
        r=m.call(meth,*args)
        print('--',meth,round(time.time()-t,2),e.steps)
        it,rest=m.items(r)
        if it is None: print(show(e,m.st,r)); continue
        for k,v in it.items():
            print('   ',k, dimstr(v.dim) if isinstance(v,Num) else v, 'nz',(v.nz if v.nz is ALL else sorted(map(litstr,v.nz))) if isinstance(v,Num) else '', 'deps',sorted(str(d[1]) for d in v.deps) if isinstance(v,Num) else '')
        if rest is not None: print('  REST',rest)
    print(Counter(x.kind for x in e.events if x.kind in ('undefined_name','import_missing','module_attr_missing','attr_missing','arity','key_missing','none_attr','index_range','unpack_mismatch','dim_mismatch','dim_literal','dim_arg','call_unknown','depth')))
    seen=set()
    for x in e.events:
        if x.kind in ('undefined_name','import_missing','module_attr_missing','attr_missing','arity','key_missing','none_attr','dim_mismatch','dim_literal','dim_arg','call_unknown') and (x.kind,x.where) not in seen:
            seen.add((x.kind,x.where))
            print('   !',x.kind,x.where,x.func,{k:(dimstr(v) if k in('a','b','dim') else v) for k,v in x.info.items() if k not in ('args','kw')})
