import sys,os,collections
sys.path.insert(0,'/tmp/w/vv'); os.environ['VERIF_REPO']='/tmp/w/rc'
os.chdir('/tmp/w/vv')
import importlib
from vlib import core, mutate
import checks.c12 as m
core.TIER='quick'
m._d=core.build('asan'); m._w=core.build('wccasan'); m._pool=mutate.corpus(); m.prepare()
import shutil
fn={'c':m.ccase,'p':m.ppcase,'a':m.ascase,'l':m.ldcase}
kinds=sys.argv[1]; n=int(sys.argv[2]); s=sys.argv[3]
c=collections.Counter(); ex={}
for k in kinds:
    for r in core.pmap(fn[k],['C12/%s/%s/%d'%(s,k,i) for i in range(n)],stop_after=10**9):
        for v in r.violations:
            c[v.key]+=1
            if v.key not in ex or sum(map(len,v.files.values()))<sum(map(len,ex[v.key].files.values())): ex[v.key]=v
shutil.rmtree('/tmp/w/fz',ignore_errors=True)
os.makedirs('/tmp/w/fz')
for i,(k,n) in enumerate(c.most_common()):
    print(i,n,k)
    d='/tmp/w/fz/%d'%i; os.makedirs(d)
    for f,b in ex[k].files.items():
        open(d+'/'+f,'wb').write(b if isinstance(b,bytes) else b.encode('latin-1','replace'))
core.drop_scratch()
