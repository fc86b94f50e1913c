# helper to plant a bug: edits /tmp/wt, writes /verif/seeded/<id>, confirms with seed.sh
import os,json,shutil,subprocess
def plant(id,prop,needs,breaks,test,edits,kit=True):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    subprocess.run(['git','-C','/tmp/wt','checkout','-q','--','.'],check=True)
    shutil.copy('/verif/tools/demokit/demo.sh',d)
    if kit: shutil.copy('/verif/tools/demokit/kit_test.go',d)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/x_test.go','w').write('package zz_demo\n'+test)
    for f,old,new in edits:
        p='/tmp/wt/'+f; s=open(p).read()
        assert s.count(old)==1,(f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    subprocess.run(['gofmt','-l']+['/tmp/wt/'+e[0] for e in edits])
    r=subprocess.run(['bash','/verif/tools/seed.sh',id])
    subprocess.run(['git','-C','/tmp/wt','checkout','-q','--','.'],check=True)
    return r.returncode
