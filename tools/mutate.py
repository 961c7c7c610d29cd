#!/usr/bin/env python3
"""dev aid: automatic mutants of the library, each run against the checks in a scratch copy.
 SLOT=a mutate.py list FILE...            list the mutation sites
 SLOT=a mutate.py run START STEP COUNT FILE...   run every STEPth mutant from START
Log: /tmp/mut.log (KILLED-BY-TESTS, COMPILE, CAUGHT <prop>, SURVIVED)."""
import sys,os,re,subprocess,time
sys.path.insert(0,'/verif/tools')
import plant
ORDER=os.environ.get('ORDER','').split() or 'P24 P25 P28 P10 P04 P09 P11 P12 P26 P27 P22 P23 P03 P15 P06 P07 P08 P05 P17 P18 P19 P20 P21 P13 P01 P02 P14 P16'.split()
R=[ (r' == ',' != '),(r' != ',' == '),(r' && ',' || '),(r' \|\| ',' && '),(r'\+ 1\b','+ 2'),(r'- 1\b','- 0'),(r'\+= 1\b','+= 2'),(r'-= 1\b','-= 0'),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'if !','if '),(r' < ',' <= '),(r' > ',' >= '),(r' <= ',' < '),(r' >= ',' > '),
 (r'\bbegin_l\b','end_l'),(r'\.end\b','.begin'),(r'\.begin\b','.end'),(r'EXPR_BEG\b','EXPR_END'),(r'EXPR_ARG\b','EXPR_BEG'),(r'EXPR_END\b','EXPR_ARG'),(r'EXPR_LABEL\b','EXPR_BEG'),(r'EXPR_CMDARG\b','EXPR_ARG'),(r'EXPR_ENDFN\b','EXPR_END'),(r'EXPR_FNAME\b','EXPR_DOT'),(r'EXPR_DOT\b','EXPR_FNAME'),
 (r'\.last\(\)','.first()'),(r'\.first\(\)','.last()'),(r'\bmaybe_boxed_node_expr\(','(|_x: &Option<Box<Node>>| None)('),(r"\| Some\(b'(.)'\)",''),(r'Some\(Self::\w+_CHAR\) \| ',''),(r'\.unwrap_or\(0\)','.unwrap_or(1)'),
 (r'\bSome\((\w+)\)$','None'),(r'self\.maybe_loc\(&\w+\)','None'),(r'Some\(self\.loc\(&\w+\)\)','None'),(r'\.(maybe_)?join\((?:[^()]|\([^()]*\))*\)',''),(r'\.with_begin\([^()]*\)',''),(r'\.with_end\([^()]*\)',''),(r'0x7f','0x3f'),(r'\b8\b','9'),(r'\b3\b','2'),(r'\b16\b','15'),(r'\b6\b','5'),(r'Some\(\$<Token>\d+\)','None')]
DEL=re.compile(r'^\s+(self|buffer|p)[\w.]*\.(?!error|set_yylval)\w+\([^{}]*\)\??;\s*$|^\s+continue;$|^\s+break;$|^\s+self(\.\w+)+ [+-]?= [^{}]*;$')
def sites(files):
    out=[]
    for f in files:
        L=open('/repo/'+f).read().split('\n')
        intest=False
        for i,l in enumerate(L):
            if '#[cfg(test)]' in l or '#[test]' in l: intest=True
            if intest: continue
            s=l.strip()
            if s.startswith('//') or s.startswith('#') or s.startswith('use ') or 'println_if' in l or 'fn ' in l or 'debug' in l: continue
            for a,b in R:
                for m in re.finditer(a,l):
                    n=l[:m.start()]+m.expand(b) .replace('','') +l[m.end():] if '\\' in b else l[:m.start()]+b+l[m.end():]
                    if n!=l: out.append((f,i,l,n))
            if DEL.match(l): out.append((f,i,l,re.match(r'\s*',l).group()+'// '+s))
    return out
def log(x):
    print(x,flush=True); open('/tmp/mut.log','a').write(x+'\n')
def main():
    if sys.argv[1]=='list':
        for k,x in enumerate(sites(sys.argv[2:])): print(k,x[0],x[1]+1,x[2].strip(),'=>',x[3].strip())
        return
    st,step,cnt=map(int,sys.argv[2:5]); files=sys.argv[5:]
    plant.sync()
    S=plant.S; ss=sites(files)
    pick=os.environ.get('PICK')
    if pick: ss=[x for x in ss if re.search(pick,x[2].strip()+' => '+x[3].strip())]
    k=st; done=0
    while k<len(ss) and done<cnt:
        f,i,o,n=ss[k]; t0=time.time()
        plant.revert()
        fn=f'{S}/repo/{f}'; L=open(fn).read().split('\n'); assert L[i]==o; L[i]=n; open(fn,'w').write('\n'.join(L))
        d=f'{k} {f}:{i+1} {o.strip()} => {n.strip()}'
        r=None if os.environ.get('SKIPTESTS') else plant.ns('RT='+S+' timeout 300 bash /verif/tools/runtests.sh')
        if r and ('error: could not compile' in r.stdout or 'error[E' in r.stdout or 'build failed' in r.stdout): res='COMPILE'
        elif r and 'stable missing: []' not in r.stdout: res='KILLED-BY-TESTS'
        else:
            res='SURVIVED'
            for p in ([] if os.environ.get('NOCHECK') else ORDER):
                r=plant.ns(f'timeout 400 bash /verif/check.sh {p} quick')
                if r.returncode==1 and 'VIOLATION property='+p in r.stdout: res='CAUGHT '+p; break
                if r.returncode not in(0,): res=f'BROKEN {p} rc={r.returncode} '+r.stdout[-200:].replace('\n',' | '); break
        plant.revert()
        log(f'[{time.time()-t0:.0f}s] {res} :: {d}')
        k+=step; done+=1
main()
