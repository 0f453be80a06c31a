#!/usr/bin/env python3
"""gen.py BATCH.py: write /verif/seeded/<id>/ for each bug of a batch (see batch1.py for the form)."""
import sys,os,subprocess,json,tempfile,shutil
here=os.path.dirname(os.path.abspath(__file__))
helper=open(here+'/helper.go.txt').read()
ns={}
exec(open(sys.argv[1]).read(),ns)
only=set(sys.argv[2:])
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    d='/verif/seeded/'+b['id']
    os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='gen.')
    subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
    for f,old,new in b['edits']:
        p=w+'/r/'+f; s=open(p).read()
        if s.count(old)!=1: print(b['id'],'matches',s.count(old),'times in',f); break
        open(p,'w').write(s.replace(old,new))
    gofiles=[f for f,_,_ in b['edits']]
    diff=subprocess.check_output(['git','-C',w+'/r','diff']).decode()
    open(d+'/patch.diff','w').write(diff)
    shutil.rmtree(w)
    h=helper
    imps=b.get('imports',[])
    if imps: h=h.replace('"testing"\n','"testing"\n'+''.join('\t"%s"\n'%i for i in imps))
    if 'demo' in b:
        open(d+'/demo_test.go.txt','w').write(h+b['demo'])
        shutil.copy(here+'/demo.sh',d+'/demo.sh')
    else:
        open(d+'/demo.sh','w').write(b['demosh'])
        for n,c in b.get('files',{}).items(): open(d+'/'+n,'w').write(c)
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    r=subprocess.run(['/verif/tools/mkbug.sh',b['id'],b.get('tail','4')],capture_output=True,text=True)
    print(r.stdout+r.stderr)
