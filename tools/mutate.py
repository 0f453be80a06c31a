#!/usr/bin/env python3
"""mutate.py OUTDIR N SEED: N random mutants of the library that compile and pass the stable tests, as patches in OUTDIR."""
import sys,os,re,random,subprocess,json,tempfile,shutil
out,n,seed=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
rnd=random.Random(seed); os.makedirs(out,exist_ok=True)
files=[f for f in os.listdir('/repo') if f.endswith('.go') and not f.endswith('_test.go')]+['internal/strutils/encoding.go']+['truecli/cmd/'+f for f in os.listdir('/repo/truecli/cmd')]
cands=[]
for f in files:
    skip=False
    for i,l in enumerate(open('/repo/'+f).read().split('\n')):
        s=l.strip()
        if s.startswith('/*'): skip=True
        if skip:
            if '*/' in s: skip=False
            continue
        if not s or s.startswith('//') or 'logrus.' in s or s.startswith('import') or 'Printf' in s or 'Println' in s or s.startswith('"') : continue
        code=l.split('//')[0]
        def sub(pat,rep):
            for m in re.finditer(pat,code):
                cands.append((f,i,l[:m.start()]+m.expand(rep)+l[m.end():]))
        sub(r' < ',' <= '); sub(r' <= ',' < '); sub(r' > ',' >= '); sub(r' >= ',' > '); sub(r' == ',' != '); sub(r' != ',' == ')
        sub(r' && ',' || '); sub(r' \|\| ',' && '); sub(r' \+ ',' - '); sub(r' - ',' + '); sub(r'\+\+','--') ; sub(r' \+= ',' -= ')
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',code):
            for d in(1,-1):
                v=int(m.group(1))+d
                if v>=0: cands.append((f,i,l[:m.start()]+str(v)+l[m.end():]))
        m=re.match(r'(\s*)if (.*) \{$',code)
        if m and ';' not in m.group(2):
            for c in('false','true'): cands.append((f,i,m.group(1)+'if %s && (%s) {'%(c,m.group(2)) if c=='false' else m.group(1)+'if true || (%s) {'%m.group(2)))
        if re.match(r'\s*[\w.\[\]*]+(, [\w.]+)* (=|\+=) .*[^{(,]$',code) or re.match(r'\s*(continue|break)$',code) or re.match(r'\s*[\w.]+\(.*\)$',code):
            cands.append((f,i,re.match(r'\s*',l).group(0)+'_ = 0'))
        m=re.search(r'(&?[\w.]+), (&?[\w.]+)([,)])',code)
        if m and 'func' not in code and 'return' not in code: cands.append((f,i,l[:m.start()]+m.group(2)+', '+m.group(1)+m.group(3)+l[m.end():]))
rnd.shuffle(cands)
base=set(t.split('/',2)[2] if False else t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'])
w=tempfile.mkdtemp(dir='/var/tmp'); subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
r=w+'/r'; k=0; tried=0
env=dict(os.environ)
for f,i,new in cands:
    if k>=n: break
    tried+=1
    p=r+'/'+f; src=open(p).read(); ls=src.split('\n')
    if ls[i]==new: continue
    old=ls[i]; ls[i]=new; open(p,'w').write('\n'.join(ls))
    ok=subprocess.run('. /opt/vp/env.sh; go build ./... && (cd truecli && go build -o /dev/null .)',shell=True,cwd=r,capture_output=True).returncode==0
    if ok:
        o=subprocess.run(['unshare','-m','bash','-c','mount -t tmpfs t /tmp; . /opt/vp/env.sh; timeout 100 go test -vet=off -count=1 -json ./...'],cwd=r,capture_output=True,text=True).stdout
        passed=set()
        for x in o.splitlines():
            try: e=json.loads(x)
            except Exception: continue
            if e.get('Test') and e['Action']=='pass': passed.add(e['Package']+'/'+e['Test'])
        ok=base<=passed
    if ok:
        k+=1
        d=subprocess.check_output(['git','-C',r,'diff','-U1']).decode()
        open('%s/m%03d.diff'%(out,k),'w').write(d)
        print(k,tried,f,i+1,old.strip(),'=>',new.strip(),flush=True)
    open(p,'w').write(src)
shutil.rmtree(w)
