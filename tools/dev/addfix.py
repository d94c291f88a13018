# usage: addfix.py PROP SUBJECT-substring ; adds latest matching commit subject
import json,subprocess,sys
f='/tmp/w/vv/tools/fixprops.json'; d=json.load(open(f))
log=subprocess.check_output(['git','-C','/tmp/w/rc','log','--format=%s']).decode().split('\n')
for i in range(1,len(sys.argv),2):
    m=[l for l in log if l.startswith('fix:') and sys.argv[i+1] in l]
    assert m,sys.argv[i+1]
    k=m[0][4:].strip()
    d[k]=sys.argv[i]
json.dump(d,open(f,'w'),indent=1)
subprocess.check_call(['python3','/tmp/w/vv/tools/mkfindings.py'])
