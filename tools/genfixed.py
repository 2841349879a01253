"""regenerates the 'fixed' list of known_findings.json from /repo's fix: commits (done by hand after each fix; never at check time)"""
import subprocess, json, os
MAP = json.load(open('/verif/tools/fix_map.json'))
log = subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    p=next((v for k,v in MAP.items() if k in s),None)
    if p is None: print('UNMAPPED',l); continue
    out.append('fixed: property=%s %s %s'%(p,h,s[5:]))
f='/verif/known_findings.json'; d=json.load(open(f)) if os.path.exists(f) else dict(known=[])
d['fixed']=out; json.dump(d,open(f,'w'),indent=1)
