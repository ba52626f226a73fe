#!/usr/bin/env python3
# mut.py FILE CHECKS < list of python tuples (name, old, new[, file])
import sys,os,subprocess,shutil,ast
default_file=sys.argv[1]; checks=sys.argv[2].split(',')
muts=ast.literal_eval(sys.stdin.read())
M='/tmp/mrepo'
subprocess.run(['rsync','-a','--delete','/repo/',M+'/']) if shutil.which('rsync') else (shutil.rmtree(M,ignore_errors=True),subprocess.run(['cp','-a','/repo',M]))
for m in muts:
    name,old,new=m[:3]; f=m[3] if len(m)>3 else default_file
    p=f'{M}/{f}'; s=open(p).read()
    if s.count(old)<1: print(name,'NOT FOUND'); continue
    open(p,'w').write(s.replace(old,new,1))
    for c in checks:
        env=dict(os.environ,REPO=M)
        r=subprocess.run(['./check',c],cwd='/verif',env=env,capture_output=True,text=True)
        first=(r.stdout.strip().split('\n') or [''])[0][:150]
        print(f'{name:24} {c} rc={r.returncode} {first}',flush=True)
    if os.environ.get('TESTS'):
        env=dict(os.environ)
    open(p,'w').write(s)
