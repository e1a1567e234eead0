#!/usr/bin/env python3
"""plant.py NAME: builds /verif/seeded/NAME from tools/plants/NAME.py, which defines
prop, needs, breaks, edits=[(file, old, new)], main (demo source).
Verifies build, tests, demo in scratch copies. With --no-check only writes files."""
import sys,os,subprocess,json,shutil,tempfile
name=sys.argv[1]; ns={}
exec(open(f'/verif/tools/plants/{name}.py').read(),ns)
d=f'/verif/seeded/{name}'; os.makedirs(d,exist_ok=True)
wt='/tmp/wt'
subprocess.run(['git','-C','/repo','worktree','remove','--force',wt],capture_output=True)
subprocess.run(['git','-C','/repo','worktree','add','--detach','-f',wt,'HEAD'],check=True,capture_output=True)
for f,a,b in ns['edits']:
    p=f'{wt}/{f}'; s=open(p).read()
    assert s.count(a)==ns.get('count',1),(f,s.count(a),a)
    open(p,'w').write(s.replace(a,b))
diff=subprocess.run(['git','-C',wt,'diff'],capture_output=True,text=True,check=True).stdout
open(f'{d}/patch.diff','w').write(diff)
subprocess.run(['git','-C','/repo','worktree','remove','--force',wt],check=True)
open(f'{d}/main.rs','w').write(ns['main'])
base=ns.get('base','demo')
for f in os.listdir(f'/verif/tools/{base}'):
    s=f'/verif/tools/{base}/{f}'
    if os.path.isdir(s): shutil.copytree(s,f'{d}/{f}',dirs_exist_ok=True)
    else: shutil.copy(s,d)
json.dump(dict(property=ns['prop'],needs=ns['needs'],what_it_breaks=ns['breaks']),open(f'{d}/meta.json','w'),indent=1)
if '--no-check' in sys.argv: sys.exit()
assert not subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout
def demo(): 
    r=subprocess.run(['bash',f'{d}/demo.sh'],cwd='/repo',capture_output=True,text=True)
    return r.returncode,(r.stdout+r.stderr)[-600:]
print('clean demo',demo())
subprocess.run(['git','-C','/repo','apply',f'{d}/patch.diff'],check=True)
try:
    print('demo with bug',demo())
    b=subprocess.run(['bash','/opt/vp/build.sh'],capture_output=True,text=True)
    print('build',b.returncode, b.stdout[-500:] if b.returncode else '')
    t=subprocess.run(['bash','/opt/vp/test.sh','/tmp/plant.json'],capture_output=True,text=True)
    print('tests',t.returncode,t.stdout.strip().splitlines()[-1:])
    if '--nosim' not in sys.argv:
        env=dict(os.environ,SIM_ROOT='/tmp/sr')
        for p in ns.get('check',[ns['prop']]):
            c=subprocess.run(['bash','/verif/check.sh',p,'quick'],capture_output=True,text=True,env=env)
            o=c.stdout.splitlines(); v=[l for l in o if l.startswith('VIOLATION')]
            print('CHECK',p,c.returncode,v[:1], [l[:300] for l in o if ': ' in l][:2] if v else c.stdout[-300:]+c.stderr[-300:])
finally:
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    subprocess.run(['bash','/opt/vp/build.sh'],capture_output=True)
