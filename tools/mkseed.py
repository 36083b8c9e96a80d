#!/usr/bin/env python3
# mkseed.py ID PROP DIFF CASE NEEDS BREAKS [REPEAT]: builds seeded/ID from a single-run case file:
# input, options and the output of the unmodified program; demo.sh compares (draws are fixed by a shim).
import sys,os,re,subprocess,json,shutil
i,prop,diff,case,needs,breaks=sys.argv[1:7]; rep=sys.argv[7] if len(sys.argv)>7 else '1'
d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True); shutil.copy(diff,d+'/patch.diff')
s=open(case).read(); k=s.index('SCENARIO'); L=s[k:]
args=[]; files=[]; p=0
def item(tag,p):
    m=re.match(tag+r' (\d+)\n',L[p:]); n=int(m.group(1)); a=p+m.end(); return L[a:a+n],a+n+1
while p<len(L):
    l=L[p:L.index('\n',p)] if '\n' in L[p:] else L[p:]
    if l.startswith('arg '): v,p=item('arg',p); args.append(v)
    elif l.startswith('fname '): v,p=item('fname',p); files.append([v,''])
    elif l.startswith('fdata '): v,p=item('fdata',p); files[-1][1]=v
    else: p+=len(l)+1
    if l.startswith('ENDS') or l.startswith('ENDCASE'): break
a=[]; k=0
while k<len(args):
    if args[k] in('-o','-f','-v'): k+=2; continue
    a.append(args[k]); k+=1
open(d+'/in.ms','w').write(dict(map(tuple,files))['in.ms'])
if not os.path.exists(d+'/demo.sh'):
  open(d+'/demo.sh','w').write('''#!/bin/bash
# cwd: the built repository.  Solves in.ms and compares with the output of the unmodified program.
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cat > $t/r.c <<'C'
#include <stdlib.h>
static unsigned long s; void srand(unsigned v) { (void)v; s = strtoul(getenv("DRAW"), 0, 10) * 0x9e3779b97f4a7c15ul; }
int rand(void) { s = s * 6364136223846793005ul + 1442695040888963407ul; return (int)(s >> 33); }
C
gcc -shared -fPIC -O1 -o $t/r.so $t/r.c || exit 2
for d in $(seq 1 %s); do
  DRAW=$d LD_PRELOAD=$t/r.so timeout 60 ./_build/msolve -f "$here/in.ms" %s -o $t/out > /dev/null 2>&1; rc=$?
  [ $rc -eq 0 ] && cmp -s $t/out "$here/expected.out" || { echo "wrong result (exit status $rc, draws $d)"; exit 1; }
done
exit 0
''' % (rep,' '.join(a)))
open(d+'/meta.json','w').write(json.dumps({"property":prop,"needs":needs,"what_it_breaks":breaks},indent=1)+'\n')
sh=open(d+'/demo.sh').read()
# expected output from the unmodified build
t='/tmp/mkseed'; os.makedirs(t,exist_ok=True)
x=sh.replace('cmp -s $t/out "$here/expected.out"','cp $t/out "$here/expected.out"')
open(t+'/e.sh','w').write(x.replace('here=$(cd "$(dirname "$0")" && pwd)','here='+d))
r=subprocess.run(['bash',t+'/e.sh'],cwd='/repo'); print(i,'rc',r.returncode,'args',a,'expected bytes',os.path.getsize(d+'/expected.out'))
