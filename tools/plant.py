#!/usr/bin/env python3
"""plant.py SPEC.py ...  -- plant a bug in a scratch copy of /repo, confirm it, keep it in /verif/seeded/<id>.
SPEC.py defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (main.rs), optional FEATURES (neure features line)."""
import sys, os, subprocess, json, shutil
W='/tmp/bugrepo'; T='/tmp/bugtarget'
env=dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
  CARGO_TARGET_DIR=T, PATH='/root/.cargo/bin:'+os.environ['PATH'])
def sh(c, cwd=W, **k): return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(W):
    subprocess.check_call(['cp','-a','/repo',W]); shutil.rmtree(W+'/target', ignore_errors=True)
DEMO='''#!/bin/bash
# runs in /repo: builds the small program beside this script against it and runs it (0: behaves, else: broken)
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" || exit 3
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
neure = { path = "$repo"%s }
%s
T
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 280 cargo run -q --offline
'''
for spec in sys.argv[1:]:
    ns={'FEATURES':'','DEPS':''}; exec(open(spec).read(), ns); id=os.path.basename(spec)[:-3]
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    for f,o,n in ns['EDITS']:
        s=open(f'{W}/{f}').read()
        if s.count(o)!=1: print(id,'EDIT matches',s.count(o),f); break
        open(f'{W}/{f}','w').write(s.replace(o,n))
    else:
        diff=subprocess.run(['git','diff'],cwd=W,stdout=subprocess.PIPE,text=True).stdout
        d=f'/tmp/bugs/out/{id}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/main.rs','w').write(ns['DEMO']); open(d+'/demo.sh','w').write(DEMO%(ns['FEATURES'],ns['DEPS'])); os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':ns['PROP'],'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']},open(d+'/meta.json','w'),indent=1)
        # do changed lines belong to the original?
        bad=[]
        fixed=subprocess.run("git diff 4065a4e HEAD -- src | grep '^+' | grep -v '^+++' | cut -c2-",shell=True,cwd='/repo',stdout=subprocess.PIPE,text=True).stdout.split('\n')
        fixed={x.strip() for x in fixed if len(x.strip())>6}
        for l in diff.split('\n'):
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() in fixed: bad.append(l)
        if bad: print(id,'possibly touches fix lines:',bad[:3])
        ok=True
        for c in ['cargo test -q --workspace --no-fail-fast --offline --lib --tests','cargo test -q --workspace --no-fail-fast --offline --doc','cargo test -q --workspace --no-fail-fast --offline --no-default-features --lib --tests',
                  'cargo check -q --workspace --lib --offline --features tracing','cargo check -q --workspace --lib --offline --features log']:
            r=sh(c)
            if r.returncode: ok=False; print(id,'FAILS',c); print('\n'.join([l for l in r.stdout.split('\n') if 'FAILED' in l or 'error' in l or 'panicked' in l][:8])); break
        if not ok: continue
        e=dict(env); e.pop('CARGO_TARGET_DIR')
        r=subprocess.run(['bash',d+'/demo.sh'],cwd=W,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        sh('git checkout -q -- .')
        r0=subprocess.run(['bash',d+'/demo.sh'],cwd=W,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        good = r.returncode!=0 and r0.returncode==0
        print(id,'patched:',r.returncode,'clean:',r0.returncode,'KEPT' if good else 'REJECTED')
        if not good or 'error' in r.stdout: print(r0.stdout[-500:])
        if good and 'error[' not in r.stdout and 'could not compile' not in r.stdout:
            t=f'/verif/seeded/{id}'; shutil.rmtree(t,ignore_errors=True); shutil.copytree(d,t)
