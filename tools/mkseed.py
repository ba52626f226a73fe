import os, subprocess, json, shutil, stat
R=os.environ.get('REPO','/repo')
def seed(id, prop, needs, breaks, edits, demo):
    d=f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git','-C',R,'status','--porcelain'],capture_output=True,text=True).stdout=='' 
    for f,a,b in edits:
        p=R+'/'+f; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a),a); open(p,'w').write(s.replace(a,b))
    diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C',R,'checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    shutil.copy('/verif/tools/seedlib/h.mjs',d); shutil.copy('/verif/tools/seedlib/demo.sh',d); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.mjs','w').write(demo)
