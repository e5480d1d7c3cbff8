"""hunk.py "ID" "subject" N [N...]: commits the given hunks (numbered over `git diff`, from 0) of /repo as a fix."""
import subprocess,sys,re
pid,subj=sys.argv[1:3]; want=set(map(int,sys.argv[3:]))
d=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
out=[];n=-1;head=[];keep=False
for l in d.splitlines(True):
    if l.startswith('diff --git'): head=[l];keep=None;continue
    if l.startswith('@@'):
        n+=1
        keep=n in want
        if keep and head: out+=head; head=[]
    if keep is None: head.append(l)
    elif keep: out.append(l)
if want:
    r=subprocess.run(['git','-C','/repo','apply','--cached','--recount','-'],input=''.join(out),text=True); assert r.returncode==0
    subprocess.check_call(['git','-C','/repo','commit','-qm','fix: '+subj])
    open('/verif/tools/known_fixed.txt','a').write(pid+' '+subj+'\n')
else:
    n=-1
    for l in d.splitlines():
        if l.startswith('@@'): n+=1; print(n,l)
        elif l[0] in '+-': print('   ',l)
