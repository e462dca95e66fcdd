#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a description in tools/bugs/<id>.py.

A description sets: prop, needs, breaks, edits=[(file, old, new)], demo=Rust source of main, deps=[crate names].
Also checks it: patch applies, demo passes without and fails with it, the property's check exits 1 with it.
usage: mkbug.py ID... [--no-check] [--seed N]
"""
import json,os,shutil,subprocess,sys,tempfile
V='/verif'; R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def clean():
    sh(f'git -C {R} checkout -- .')
    assert sh(f'git -C {R} status --porcelain').stdout=='' , 'repo not clean'
CRATES={'sdk','runner','node','recproofs','circuits','cli'}
def build(id):
    ns={}
    exec(open(f'{V}/tools/bugs/{id}.py').read(),ns)
    d=f'{V}/seeded/{id}'
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    clean()
    for f,a,b in ns['edits']:
        p=f'{R}/{f}'; s=open(p).read()
        assert s.count(a)==1,(id,f,s.count(a),a)
        open(p,'w').write(s.replace(a,b))
    diff=sh(f'git -C {R} diff').stdout
    assert diff
    open(f'{d}/patch.diff','w').write(diff)
    clean()
    json.dump({'property':ns['prop'],'needs':ns['needs'],'what_it_breaks':ns['breaks']},open(f'{d}/meta.json','w'),indent=1)
    if 'shell' in ns:
        open(f'{d}/demo.sh','w').write(ns['shell'])
        for n,t in ns.get('files',{}).items(): open(f'{d}/{n}','w').write(t)
    else:
        D=f'{d}/demo'; os.makedirs(f'{D}/src')
        open(f'{D}/src/main.rs','w').write(ns['demo'])
        for n,f in ns.get('src',{}).items(): shutil.copy(f,f'{D}/src/{n}')
        deps=ns.get('deps',['runner','sdk'])
        shutil.copytree(f'{V}/sim/shims',f'{D}/shims',ignore=shutil.ignore_patterns('target','Cargo.lock'))
        need=set(deps)
        work=list(need)
        while work:
            c=work.pop()
            for l in open(f'{V}/sim/crates/{c}/Cargo.toml'):
                for o in CRATES|{'simkit','txkit','starky','circuits','circuits-derive','expr','circuits-core'}:
                    if f'path = "../{o}"' in l and o not in need: need.add(o); work.append(o)
        if 'txkit' in need: shutil.copytree(f'{V}/guest',f'{d}/guest',ignore=shutil.ignore_patterns('target'))
        for c in need: shutil.copytree(f'{V}/sim/crates/{c}',f'{D}/crates/{c}',ignore=shutil.ignore_patterns('target'))
        t='[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nplonky2 = { path = "shims/plonky2" }\n'
        for c in deps:
            name={'runner':'mozak-runner','sdk':'mozak-sdk','node':'mozak-node','recproofs':'mozak-recproofs','circuits':'mozak-circuits','cli':'mozak-cli'}.get(c,c)
            t+=f'{name} = {{ path = "crates/{c}" }}\n'
        t+=ns.get('extra_deps','')
        cfg=open(f'{V}/sim/Cargo.toml').read()
        t+='\n[profile.dev]\nopt-level = 1\ndebug = false\n'+cfg[cfg.index('[patch.crates-io]'):]
        open(f'{D}/Cargo.toml','w').write(t)
        shutil.copy(f'{V}/sim/Cargo.lock',f'{D}/Cargo.lock'); shutil.copy(f'{V}/tools/strip_vendor.py',D)
        open(f'{d}/demo.sh','w').write(r'''#!/bin/bash
# Builds and runs demo/ against /repo in a scratch directory.
d=$(cd "$(dirname "$0")" && pwd)
export PATH=$HOME/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=nightly-2024-04-24
export RUSTFLAGS="--cap-lints allow --cfg mozak_sim"
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -r "${t:?}"' EXIT
cp -r "$d/demo" "$t/demo"
if [ -d "$d/guest" ]; then cp -r "$d/guest" "$t/guest"; (unset RUSTFLAGS; "$t/guest/build.sh") || exit 2; fi
cd "$t/demo" || exit 2
# The crates of Cargo.lock, from the sandbox's own cargo caches.
python3 - <<'EOF' || exit 2
import re, glob, os, tarfile, hashlib, json
os.makedirs('vendor')
for name, ver, src in re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"\n(source = [^\n]+\n)?', open('Cargo.lock').read()):
    if not src: continue
    f = glob.glob(os.path.expanduser(f'~/.cargo/registry/cache/*/{name}-{ver}.crate'))
    if not f: raise SystemExit(f'no {name}-{ver}')
    tarfile.open(f[0]).extractall('vendor', filter='fully_trusted')
    json.dump({'files': {}, 'package': hashlib.sha256(open(f[0], 'rb').read()).hexdigest()}, open(f'vendor/{name}-{ver}/.cargo-checksum.json', 'w'))
os.makedirs('.cargo')
os.system('python3 strip_vendor.py vendor')
open('.cargo/config.toml', 'w').write('[source.crates-io]\nreplace-with = "v"\n[source.v]\ndirectory = "vendor"\n')
EOF
CARGO_TARGET_DIR=$t/target timeout 280 cargo run -q --offline
''')
    os.chmod(f'{d}/demo.sh',0o755)
    return ns
def main():
    args=[a for a in sys.argv[1:] if not a.startswith('--')]
    ok=True
    for id in args:
        ns=build(id); d=f'{V}/seeded/{id}'
        a=sh(f'{d}/demo.sh',cwd=R)
        r=sh(f'git -C {R} apply {d}/patch.diff')
        assert r.returncode==0,r.stderr
        try:
            b=sh(f'{d}/demo.sh',cwd=R)
            bt=sh('bash /opt/vp/build.sh') if '--no-build' not in sys.argv else None
            res='?'
            if '--no-check' not in sys.argv:
                c=sh(f'./check {ns["prop"]} quick',cwd=V)
                res={1:'CAUGHT',0:'missed'}.get(c.returncode,f'exit {c.returncode}')
                tail=[l for l in c.stdout.splitlines() if 'class=' in l][-1:] or c.stdout.splitlines()[-3:]
                res+=' '+' | '.join(tail)[:300]
        finally: clean()
        print(f'{id}: demo clean={a.returncode} planted={b.returncode} build={bt.returncode if bt else "-"} check: {res}',flush=True)
        if a.returncode: print(a.stdout[-1500:],a.stderr[-1500:])
        if b.returncode==0 or b.returncode not in (1,101): print('PLANTED:',b.stdout[-600:],b.stderr[-1500:])
        if bt and bt.returncode: print(bt.stdout[-1500:],bt.stderr[-1500:])
main()
