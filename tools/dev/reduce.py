import sys,subprocess,os,re
sys.path.insert(0,'/verif')
src=open(sys.argv[1]).read().split('\n'); cc=sys.argv[2] if len(sys.argv)>2 else '/tmp/w/x64/xcc'
mode=sys.argv[3] if len(sys.argv)>3 else 'diff'   # or 'crash:<text>'
import tempfile; d=tempfile.mkdtemp(dir="/tmp/w"); os.chdir(d)
def test(lines):
    open('r.c','w').write('\n'.join(lines))
    r=subprocess.run(cc.split()+['-o','x','r.c'],capture_output=True,text=True)
    if mode.startswith('crash:'):
        if mode[6:] not in r.stderr: return False
        g=subprocess.run(['gcc','-w','-fsyntax-only','r.c'],capture_output=True)
        return g.returncode==0
    if r.returncode: return False
    g=subprocess.run(['gcc','-O1','-Werror=return-type','-Werror=uninitialized','-Werror=maybe-uninitialized','-fsanitize=undefined','-fno-sanitize-recover','-o','g','r.c'],capture_output=True)
    if g.returncode: return False
    try:
        g=subprocess.run(['./g'],capture_output=True,timeout=5); x=subprocess.run(['./x'],capture_output=True,timeout=5)
    except subprocess.TimeoutExpired: return False
    if g.returncode: return False
    if (g.stdout,g.returncode)==(x.stdout,x.returncode): return False
    m=subprocess.run(['clang','-w','-O0','-fsanitize=memory','-o','m','r.c'],capture_output=True)
    if m.returncode or subprocess.run(['./m'],capture_output=True,timeout=5).returncode: return False
    return (g.stdout,g.returncode)!=(x.stdout,x.returncode)
if not test(src): print('not interesting'); sys.exit(1)
n=max(1,len(src)//2)
while n>=1:
    i=0; ch=False
    while i<len(src):
        c=src[:i]+src[i+n:]
        if test(c): src=c; ch=True
        else: i+=n
    if n==1 and not ch: break
    n=max(1,n//2) if n>1 else (1 if ch else 0)
# expression reduction: replace parenthesised groups by 1 / inner
def groups(s):
    st=[]
    for i,c in enumerate(s):
        if c=='(': st.append(i)
        elif c==')' and st:
            yield st.pop(),i
ch=True
rounds=0
while ch and rounds<6:
    ch=False; rounds+=1
    for li in range(len(src)):
        if 'obuf' in src[li] or src[li].startswith('#'): continue
        again=True
        while again:
            again=False
            s=src[li]
            for a,b in sorted(groups(s),key=lambda t:t[0]-t[1]):
                inner=s[a+1:b]
                cands=['0','1']
                # split top-level binary
                for sa,sb in groups(inner): pass
                cands+= ['('+inner[x:y+1].strip('()')+')' for x,y in list(groups(inner))[:6]]
                cands+=re.findall(r'\b[a-z]\d+(?:\[\w+\])?\b',inner)[:6]
                for c in cands:
                    if len(c)>=b+1-a: continue
                    t=s[:a]+c+s[b+1:]
                    n2=src[:li]+[t]+src[li+1:]
                    if test(n2):
                        src=n2; again=True; ch=True; break
                if again: break
open('r.c','w').write('\n'.join(src))
print('\n'.join(l for l in src if l.strip()))
