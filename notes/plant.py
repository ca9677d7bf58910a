#!/usr/bin/env python3
"""plant.py ID: makes seeded/ID/patch.diff from seeded/ID/edit.py-style replacements given on stdin as python list
[(file, old, new), ...]; builds; runs the demo with and without; reverts."""
import sys, subprocess, os
ID=sys.argv[1]; D=f'/verif/seeded/{ID}'; R='/repo'
sh=lambda c,**k: subprocess.run(c,shell=True,text=True,capture_output=True,**k)
assert sh('git -C /repo status --porcelain -uno').stdout.strip()=='' , 'dirty repo'
eds=eval(sys.stdin.read())
args=sys.argv[2] if len(sys.argv)>2 else ''
if not os.path.exists(D+'/demo.sh'):
    open(D+'/demo.sh','w').write(open('/verif/notes/demo.sh').read().replace('ARGS',args))
try:
    r=sh('bash /opt/vp/build.sh 2>&1 | tail -3',cwd=R)
    r=sh(f'bash {D}/demo.sh',cwd=R); print('clean rc',r.returncode,(r.stdout+r.stderr)[-600:])
    for e in eds:
        f,o,n=e[:3]; s=open(f'{R}/{f}').read(); k=s.count(o)
        occ=e[3] if len(e)>3 else None
        assert k>=1 and (k==1 or occ is not None),(f,o,k)
        if occ is None: s=s.replace(o,n)
        else:
            p=-1
            for _ in range(occ): p=s.index(o,p+1)
            s=s[:p]+n+s[p+len(o):]
        open(f'{R}/{f}','w').write(s)
    open(D+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    r=sh('bash /opt/vp/build.sh 2>&1 | tail -3',cwd=R); print('build',r.returncode,r.stdout[-300:])
    r=sh(f'bash {D}/demo.sh',cwd=R); print('bug rc',r.returncode,(r.stdout+r.stderr)[-600:])
    if os.environ.get('CHK'):
        r=sh(f"python3 /verif/check.py {os.environ['CHK']} quick"); print('check',r.returncode,r.stdout[-500:])
    if os.environ.get('TESTS'):
        r=sh('bash /opt/vp/test.sh /tmp/t.json | grep -c PASS',cwd=R); print('tests passed',r.stdout)
finally:
    sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh',cwd=R)
