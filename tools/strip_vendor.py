#!/usr/bin/env python3
"""Removes from the vendored manifests what is not vendored (optional, dev and foreign-platform dependencies)."""
import tomllib,os,re,json,sys
V=sys.argv[1] if len(sys.argv)>1 else '/verif/sim/vendor'
def names():
    out={}
    for d in sorted(os.listdir(V)):
        t=tomllib.load(open(f'{V}/{d}/Cargo.toml','rb'))
        out.setdefault(t['package']['name'],[]).append(t['package']['version'])
    return out
N=names()
SHIMS={'plonky2','elf','serde-hex','mimalloc','env_logger'}
def key(k): return k if re.fullmatch(r'[A-Za-z0-9_-]+',k) else json.dumps(k)
def val(v):
    if isinstance(v,bool): return 'true' if v else 'false'
    if isinstance(v,(int,float)): return str(v)
    if isinstance(v,str): return json.dumps(v,ensure_ascii=False)
    if isinstance(v,list): return '['+', '.join(val(x) for x in v)+']'
    if isinstance(v,dict): return '{ '+', '.join(f'{key(k)} = {val(x)}' for k,x in v.items())+' }'
    raise Exception(type(v))
def emit(t,path=()):
    out=[]
    simple={k:v for k,v in t.items() if not isinstance(v,dict) and not(isinstance(v,list) and v and isinstance(v[0],dict))}
    if path: out.append('['+'.'.join(key(p) for p in path)+']')
    for k,v in simple.items(): out.append(f'{key(k)} = {val(v)}')
    out.append('')
    for k,v in t.items():
        if k in simple: continue
        if isinstance(v,list):
            for e in v:
                out.append('[['+'.'.join(key(p) for p in path+(k,))+']]')
                for kk,vv in e.items(): out.append(f'{key(kk)} = {val(vv)}')
                out.append('')
        else: out+=emit(v,path+(k,))
    return out
def keep(dep,spec):
    pkg=spec.get('package',dep) if isinstance(spec,dict) else dep
    return pkg in N
for d in sorted(os.listdir(V)):
    p=f'{V}/{d}/Cargo.toml'
    t=tomllib.load(open(p,'rb'))
    removed=set()
    t.pop('dev-dependencies',None)
    for sec in ('test','bench','example'): t.pop(sec,None)
    for tbl in [t]+list(t.get('target',{}).values()):
        tbl.pop('dev-dependencies',None)
        for sec in ('dependencies','build-dependencies'):
            for dep in list(tbl.get(sec,{})):
                if not keep(dep,tbl[sec][dep]):
                    s=tbl[sec][dep]
                    opt=isinstance(s,dict) and s.get('optional')
                    if not opt and tbl is t: print('NON-OPTIONAL',d,dep)
                    removed.add(dep); del tbl[sec][dep]
    left=set()
    for tbl in [t]+list(t.get('target',{}).values()):
        for sec in ('dependencies','build-dependencies'): left|=set(tbl.get(sec,{}))
    F=t.get('features',{})
    def ok(e):
        if e.startswith('dep:'): return e[4:] in left
        if '/' in e: return e.split('/')[0].rstrip('?') in left
        return e in F or e in left
    changed=True
    for f in F: F[f]=[e for e in F[f] if ok(e)]
    open(p,'w').write('\n'.join(emit(t))+'\n')
    for junk in ('Cargo.toml.orig','Cargo.lock','.cargo_vcs_info.json'):
        if os.path.exists(f'{V}/{d}/{junk}'): os.remove(f'{V}/{d}/{junk}')
