#!/usr/bin/env python3
"""mutrun.py UNICHECK DIR LANES: run the checks on each mutant in DIR until one reports it."""
import sys,os,subprocess,tempfile,shutil,glob,re,concurrent.futures as cf
uc,d,lanes=sys.argv[1],sys.argv[2],int(sys.argv[3])
ALL=['C07','C06','C28','C29','C30','C25','C22','C31','C27','C17','C15','C08','C16','C05','C02','C12','C23','C24','C14','C10','C09','C01','C03','C26','C21','C20','C13','C04','C11']
CLI=['C32','C18','C19','C24']
def order(f):
    if 'truecli' in f: return CLI
    first=[]
    if 'cmap' in f: first=['C22','C25','C06','C05','C24']
    elif 'validate' in f: first=['C08','C01']
    elif 'name' in f: first=['C26','C06','C23']
    elif 'strutils' in f or 'encoding' in f: first=['C26','C21']
    elif 'reader' in f or 'type' in f: first=['C05','C01','C12']
    elif 'hmtx' in f: first=['C28','C16']
    elif 'glyf' in f or 'loca' in f: first=['C15','C17','C28']
    elif 'post' in f or 'os2' in f or 'head' in f or 'hhea' in f or 'maxp' in f: first=['C05','C27']
    return first+[c for c in ALL if c not in first]
def one(m):
    log=m[:-5]+'.res'
    if os.path.exists(log): return
    txt=open(m).read(); f=re.search(r'\+\+\+ b/(\S+)',txt).group(1)
    w=tempfile.mkdtemp(dir='/var/tmp')
    try:
        subprocess.check_call(['git','clone','-q','/repo',w+'/r']); subprocess.check_call(['git','-C',w+'/r','apply',m])
        res='SURVIVED'
        for c in order(f):
            r=subprocess.run('. /opt/vp/env.sh; export UNICHECK_ROOTCACHE=%s/cache; mkdir -p %s/cache; %s -prop %s -repo %s/r -verif %s'%(w,w,uc,c,w,w),shell=True,capture_output=True,text=True)
            if r.returncode!=0:
                v=[l for l in r.stdout.splitlines() if ': rule ' in l]
                res='%s rc=%d %s'%(c,r.returncode,(v[0] if v else (r.stdout+r.stderr)[-200:])[:260]); break
        open(log,'w').write(res+'\n')
        ls=[l for l in txt.splitlines() if l[:1] in '+-' and l[:3] not in('+++','---')]
        print(os.path.basename(m),f,' | '.join(x.replace('\t','') for x in ls),'\n     ',res,flush=True)
    finally: shutil.rmtree(w)
with cf.ThreadPoolExecutor(lanes) as ex: list(ex.map(one,sorted(glob.glob(d+'/*.diff'))))
