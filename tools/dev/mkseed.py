import sys,json,os,subprocess
def seed(i,prop,edits,demo,needs,breaks,files={}):
    d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
    for f,o,n in edits:
        p='/repo/'+f; s=open(p).read()
        assert s.count(o)==1,(i,f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    subprocess.run(['bash','/verif/tools/newseed.sh',i,prop],check=True)
    open(d+'/demo.sh','w').write('#!/bin/bash\n'+demo)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    for n,t in files.items(): open(d+'/'+n,'w').write(t)
CC='''d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
export TMPDIR=$d
'''
def ccdemo(opts='',run='"$d/a"',rc=0):
    return CC+'./xcc %s -o "$d/a" "$here/demo.c" || exit 1\n%s > "$d/out"; r=$?\n[ $r -eq %d ] && cmp "$d/out" "$here/expected"\n'%(opts,run,rc)
