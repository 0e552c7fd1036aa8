#!/usr/bin/env python3
"""plant.py SPEC [ID...]: turns the planted bugs described in SPEC (a Python file) into
/verif/seeded/<id>/ and keeps those that build, pass the stable tests, and whose demonstration
passes without and fails with the change.  Works in the scratch copy /tmp/plant."""
import re, sys, os, subprocess, json, shutil, runpy
V='/verif'; R='/tmp/plant'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
bugs = runpy.run_path(sys.argv[1])['BUGS']
want = sys.argv[2:]
if not os.path.exists(R):
    sh(f'cp -a /repo {R}')
sh(f'git -C {R} checkout -q -- . && git -C {R} fetch -q /repo && git -C {R} reset -q --hard $(git -C /repo rev-parse HEAD)')
ROOT={h[:7] for h in sh('git -C /repo rev-list 032b8cf~1').stdout.split()}
stable=json.load(open('/opt/vp/BASELINE.json'))
for b in bugs:
    if want and b['id'] not in want: continue
    d=f"{V}/seeded/{b['id']}"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    for f in ['common.rs','refscram.rs']: shutil.copy(f'{V}/tools/demo/{f}', d)
    if b.get('gss'): shutil.copy(f'{V}/tools/demo/fakegss.rs', d)
    shutil.copy(f'{V}/tools/demo/demo.sh', d)
    mods='mod common;\nmod refscram;\n'+('#[allow(dead_code)]\nmod fakegss;\n' if b.get('gss') else '')+'use common::*;\n'
    open(d+'/main.rs','w').write(f"//! {b['breaks']}\n#![allow(unused)]\n"+mods+b['demo'].strip()+'\n')
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']}, open(d+'/meta.json','w'), indent=1)
    ok=True
    for f,old,new in b['edits']:
        p=f'{R}/{f}'; s=open(p).read()
        if s.count(old)!=1: print(b['id'],'EDIT MATCHES',s.count(old),f); ok=False; break
        open(p,'w').write(s.replace(old,new))
    if ok:
        open(d+'/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
        # changed lines must be of the original repository
        diff=open(d+'/patch.diff').read(); f=None; removed=0
        for l in diff.splitlines():
            m=re.match(r'--- a/(.*)',l)
            if m: f=m[1]; blame=sh(f'git -C {R} blame -s HEAD -- {f}').stdout.splitlines(); continue
            m=re.match(r'@@ -(\d+)',l)
            if m: n=int(m[1]); continue
            if l.startswith('-') and not l.startswith('---'):
                removed+=1
                if blame[n-1].split()[0].lstrip('^')[:7] not in ROOT: ok=False; print(b['id'],'NOT AN ORIGINAL LINE:',l)
                n+=1
            elif l.startswith(' '): n+=1
        if not removed: print(b['id'],'?? no line removed')
    if ok:
        t=sh(f"cd {R} && export CARGO_TARGET_DIR={R}/target RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true && (cargo test --workspace --no-fail-fast --offline; cargo test --workspace --all-features --no-fail-fast --offline) > /tmp/plant.log 2>&1; python3 /opt/vp/results.py /tmp/plant.json cargo:/tmp/plant.log")
        log=open('/tmp/plant.log').read()
        nf=log.count('... FAILED'); comp='error: could not compile' in log or 'error[' in log
        if nf or comp: 
            ok=False; print(b['id'],'TESTS', nf, 'compile error' if comp else ''); print('\n'.join([l for l in log.splitlines() if 'error' in l or 'FAILED' in l][:12]))
    if ok:
        bad=sh(f'cd {R} && bash {d}/demo.sh')
        sh(f'git -C {R} checkout -q -- .')
        good=sh(f'cd {R} && bash {d}/demo.sh')
        if good.returncode!=0: ok=False; print(b['id'],'DEMO FAILS ON UNCHANGED\n', good.stdout[-1800:])
        if bad.returncode==0: ok=False; print(b['id'],'DEMO PASSES WITH BUG\n', bad.stdout[-800:])
        if bad.returncode!=0 and 'panicked at' not in bad.stdout: print(b['id'],'?? demo failure is not an assertion:\n', bad.stdout[-1500:])
    sh(f'git -C {R} checkout -q -- .')
    print(b['id'], 'ok' if ok else 'REJECTED', flush=True)
    if not ok: os.rename(d, d+'.rejected') if not os.path.exists(d+'.rejected') else (shutil.rmtree(d+'.rejected'), os.rename(d, d+'.rejected'))
