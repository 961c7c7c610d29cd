#!/usr/bin/env python3
"""dev aid: make and try planted bugs.
 plant.py make ID...   build /verif/seeded/ID from tools/plants.py, validated in a scratch copy
 plant.py run [-t] ID...|all    run the property's check against the planted bug in a scratch copy
Everything happens in a private mount namespace where /repo and /verif are scratch copies."""
import sys,os,subprocess,json,shutil,re
V='/verif'; S='/tmp/sc'+os.environ.get('SLOT','')
sys.path.insert(0,V+'/tools')
MAIN='''use lib_ruby_parser::{Parser, ParserOptions};
fn main() {
    for f in std::env::args().skip(1) {
        let src = std::fs::read(&f).unwrap();
        let r = Parser::new(src, ParserOptions { buffer_name: "in.rb".into(), record_tokens: true, ..Default::default() }).do_parse();
        println!("== {}", f.rsplit('/').next().unwrap());
        println!("{:?}", r.ast);
        for d in &r.diagnostics { println!("{:?} {:?} {}", d.level, d.loc, d.message.render()); }
        for c in &r.comments { println!("{:?}", c); }
        for c in &r.magic_comments { println!("{:?}", c); }
        if std::env::var("DEMO_TOKENS").is_ok() { for t in &r.tokens { println!("{:?}", t); } }
    }
}
'''
DEMO='''#!/bin/bash
# cwd: the repository, built. Exits 0 when the inputs beside this file parse as they should.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export CARGO_HOME="${CARGO_HOME:-/root/.cargo}" RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}"
export PATH="$CARGO_HOME/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu@TOK@
mkdir -p "$T/demo/src" && cp "$D/main.rs" "$T/demo/src/main.rs"
cat > "$T/demo/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
lib-ruby-parser = { path = "$R" }
[workspace]
X
cargo build --quiet --offline --manifest-path "$T/demo/Cargo.toml" 2> "$T/log" || { cat "$T/log"; exit 3; }
timeout 60 "$T/target/debug/demo" "$D"/in*.rb > "$T/out" 2> "$T/err"
rc=$?
if [ $rc -ne 0 ]; then echo "demo program exited with $rc"; tail -n 5 "$T/err"; exit 1; fi
@CMP@
'''
CMP='''[ -n "$DEMO_UPDATE" ] && cp "$T/out" "$D/expected.txt"
diff "$D/expected.txt" "$T/out" > "$T/diff" && exit 0
cut -c1-400 "$T/diff" | head -n 20
exit 1'''
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
def ns(c): # run c with scratch copies bound over /repo and /verif
    return sh("unshare -m bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && { %s; }'"%(S,S,c.replace("'","'\\''")))
def sync():
    os.makedirs(S,exist_ok=True)
    if not os.path.isdir(S+'/repo'): sh(f'cp -a /repo {S}/repo'); 
    if not os.path.isdir(S+'/verif'): sh(f'cp -a /verif {S}/verif')
    h=sh('git -C /repo rev-parse HEAD').stdout.strip()
    r=sh(f'cd {S}/repo && git fetch -q /repo HEAD && git checkout -q -f {h} -- . && git reset -q --hard {h}')
    assert r.returncode==0,r.stdout
    for d in ('mc/src','tools','seeded'):
        sh(f'rsync -ac --delete /verif/{d}/ {S}/verif/{d}/ || (rm -rf {S}/verif/{d}; cp -a /verif/{d} {S}/verif/{d})')
    sh(f'cp -a /verif/mc/Cargo.toml /verif/mc/Cargo.lock {S}/verif/mc/; cp -a /verif/check.sh /verif/known_findings.jsonl {S}/verif/')
def revert(): sh(f'cd {S}/repo && git checkout -q -- .')
def make(p):
    d=f'{V}/seeded/{p["id"]}'
    revert()
    for f,o,n in p['edits']:
        fn=f'{S}/repo/{f}'; s=open(fn).read()
        c=s.count(o)
        if c!=1: print(p['id'],'EDIT: matches',c,'in',f); revert(); return False
        open(fn,'w').write(s.replace(o,n))
    diff=sh(f'git -C {S}/repo diff').stdout
    revert()
    sh(f'rm -rf /verif/seeded/{p["id"]}'); os.makedirs(d)
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':p['property'],'needs':p['needs'],'what_it_breaks':p['breaks']},open(d+'/meta.json','w'),indent=1)
    open(d+'/main.rs','w').write(p.get('main') or MAIN)
    for i,s in enumerate(p.get('inputs',[])):
        open(f'{d}/in{i}.rb','wb').write(s.encode() if isinstance(s,str) else s)
    dm=DEMO.replace('@TOK@',' DEMO_TOKENS=1' if p.get('tokens') else '')
    if p.get('main'): dm=dm.replace('@CMP@','exit 0').replace('"$D"/in*.rb ','')
    else: dm=dm.replace('@CMP@',CMP)
    open(d+'/demo.sh','w').write(dm); os.chmod(d+'/demo.sh',0o755)
    sync()
    r=ns(f'DEMO_UPDATE=1 bash /verif/seeded/{p["id"]}/demo.sh')
    if os.path.exists(f'{S}/verif/seeded/{p["id"]}/expected.txt'): shutil.copy(f'{S}/verif/seeded/{p["id"]}/expected.txt',d)
    if r.returncode!=0: print(p['id'],'DEMO fails on clean tree',r.stdout); return False
    r=ns(f'git apply /verif/seeded/{p["id"]}/patch.diff && bash /verif/tools/runtests.sh')
    if 'stable missing: []' not in r.stdout: print(p['id'],'TESTS',r.stdout[-1500:]); revert(); return False
    r=ns(f'bash /verif/seeded/{p["id"]}/demo.sh')
    revert()
    if r.returncode in(0,3): print(p['id'],'DEMO PASSES/BROKEN WITH PATCH',r.returncode,r.stdout[-500:]); return False
    print(p['id'],'valid;',r.stdout.strip().split('\n')[-1][:200]); return True
def run(i,tier='quick',props=None):
    m=json.load(open(f'{V}/seeded/{i}/meta.json'))
    for pr in props or [m['property']]:
        r=ns(f'git apply /verif/seeded/{i}/patch.diff && bash /verif/check.sh {pr} {tier}')
        revert()
        v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        print(i,pr,'CAUGHT' if r.returncode==1 and any('property='+pr in x for x in v) else f'MISSED rc={r.returncode} {r.stdout[-200:]}',flush=True)
if __name__=='__main__':
    a=sys.argv[2:]
    sync()
    if sys.argv[1]=='make':
        import plants
        for i in a:
            p=[p for p in plants.ALL if p['id']==i][0]
            if make(p): run(i)
    else:
        tier='quick'
        if a and a[0]=='-t': tier='thorough'; a=a[1:]
        pr=None
        if '--props' in a: k=a.index('--props'); pr=a[k+1].split(','); a=a[:k]
        if a==['all']: a=sorted(os.listdir(V+'/seeded'))
        for i in a: run(i,tier,pr)
