import sys,subprocess,shutil,os
# mut.py file old new -- cmd  ; runs in copy /tmp/mrepo via VF_REPO
f,old,new=sys.argv[1:4]
shutil.rmtree('/tmp/mrepo',True)
shutil.copytree('/repo','/tmp/mrepo',ignore=shutil.ignore_patterns('_build','.git'))
p='/tmp/mrepo/'+f
sys.path.insert(0,'/verif/dev')
from edit import edit
edit(p,(old,new))
env=dict(os.environ,VF_REPO='/tmp/mrepo')
sys.exit(subprocess.call(sys.argv[5:],env=env))
