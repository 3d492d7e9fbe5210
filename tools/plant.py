"""plant.py BUGFILE [ids]: makes /verif/seeded/<id> from the bugs after confirming them"""
import sys,os,subprocess,json,shutil,runpy
PRE='''import os
import sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from liblarch import Tree, TreeNode


def check(cond, text):
    if not cond:
        print('FAILED:', text)
        sys.exit(1)


'''
WT='/tmp/plant/wt'
def sh(cmd,**k): return subprocess.run(cmd,shell=True,capture_output=True,text=True,**k)
def main():
    bugs=runpy.run_path(sys.argv[1])['BUGS']
    only=sys.argv[2:]
    for b in bugs:
        if only and b['id'] not in only: continue
        shutil.rmtree(WT,ignore_errors=True)
        sh('cp -a /repo %s'%WT)
        ok=True
        for f,old,new in b['edits']:
            p=os.path.join(WT,f); s=open(p).read()
            if s.count(old)!=1: print(b['id'],'MATCHES',s.count(old),repr(old)); ok=False; break
            open(p,'w').write(s.replace(old,new))
        if not ok: continue
        d='/verif/seeded/'+b['id']
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        diff=sh('git -C %s diff'%WT).stdout
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.py','w').write(PRE+b['demo'].strip()+'\nprint("ok")\n')
        open(d+'/demo.sh','w').write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'); os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        c=sh('timeout 120 %s/demo.sh'%d,cwd='/repo'); m=sh('timeout 120 %s/demo.sh'%d,cwd=WT)
        # tests run against the copy
        t=sh('sed s,/repo,%s,g /opt/vp/test.sh > /tmp/plant/test.sh; bash /tmp/plant/test.sh /tmp/plant/out.json 2>&1 | tail -1'%WT)
        good=c.returncode==0 and m.returncode!=0 and '70 passed, 0 failed' in t.stdout
        print(b['id'],'OK' if good else 'BAD','clean',c.returncode,'bug',m.returncode,(m.stdout+m.stderr).strip()[-150:].replace('\n',' | '),t.stdout.strip(), '' if c.returncode==0 else c.stderr[-400:])
        if not good: shutil.rmtree(d)
    shutil.rmtree(WT,ignore_errors=True)
main()
