#!/usr/bin/env python3
"""mutate.py list            lists small changes of single original lines of /repo (/tmp/mut/list.json)
mutate.py filter N        keeps those that compile and pass the tests, N at a time (/tmp/mut/filter.jsonl)
mutate.py run "ID ..."    runs the checks on each until one reports a violation (/tmp/mut/run.jsonl)
"""
import glob, json, os, queue, random, re, shutil, subprocess, sys, threading, time
from collections import Counter


def mutants():
    allf=[f for f in subprocess.check_output("git -C /repo ls-files '*.go'",shell=True,text=True).split() if not f.endswith("_test.go") and "/gen" not in f and "_gen.go" not in f and "_string" not in f]
    out=[]
    for f in allf:
        bl=subprocess.check_output(["git","-C","/repo","blame","-s",f],text=True).splitlines()
        lines=open("/repo/"+f).read().split("\n")
        base=set()
        for i,l in enumerate(bl):
            if l.startswith("^") or l.split()[0].lstrip("^")[:7] in ("b04bd6b"[:7],): base.add(i)
        # determine by ancestor
        infn=False
        for i,l in enumerate(lines[:len(bl)]):
            if l.startswith("func "): infn=True
            if l.startswith("}"): infn=False
            if i not in base or not infn: continue
            s=l.strip()
            if not s or s.startswith("//") or l.startswith("func "): continue
            code=l
            def add(new,kind):
                if new!=l: out.append(dict(file=f,line=i,old=l,new=new,kind=kind))
            for m in re.finditer(r"==|!=|<=|>=|&&|\|\||(?<![<\-])<(?![<\-=])|(?<![>\-=])>(?![>=])",code):
                if code[:m.start()].count('"')%2: continue
                r={"==":["!="],"!=":["=="],"<=":["<"],">=":[">"],"&&":["||"],"||":["&&"],"<":["<="],">":[">="]}[m.group()]
                for x in r: add(code[:m.start()]+x+code[m.end():],"op")
            for m in re.finditer(r"\btrue\b|\bfalse\b",code):
                if code[:m.start()].count('"')%2: continue
                add(code[:m.start()]+("false" if m.group()=="true" else "true")+code[m.end():],"bool")
            for m in re.finditer(r"(?<![\w\"'.])\d+(?![\w\"'.])",code):
                if code[:m.start()].count('"')%2: continue
                add(code[:m.start()]+str(int(m.group())+1)+code[m.end():],"int")
            for m in re.finditer(r"!(?=[\w(])",code):
                if code[:m.start()].count('"')%2: continue
                add(code[:m.start()]+code[m.end():],"not")
            for m in re.finditer(r'"([^"\\]|\\.)+"',code):
                if "Error" in code or "Errorf" in code or "errors." in code: continue
                add(code[:m.start()]+m.group()[:-1]+'X"'+code[m.end():],"str")
            # delete statement
            if re.match(r"^\s+[\w.\[\]*(), ]+(\(.*\)|\s*(:?=|\+=|-=)\s.*|\+\+|--)$",l) and not s.endswith("{") and not s.startswith(("return","defer","go ","case","var ")) and ":=" not in s:
                add(re.match(r"\s*",l).group()+"_ = 0","del")
            if re.match(r"^\s+(continue|break|return)$",l): add("","del")
            if re.match(r"^\s+defer ",l): add("","del")
            # if cond
            m=re.match(r"^(\s*(?:\} else )?if )(.*)( \{)$",l)
            if m and ";" not in m.group(2):
                add(m.group(1)+"true || ("+m.group(2)+")"+m.group(3),"iftrue"); add(m.group(1)+"false && ("+m.group(2)+")"+m.group(3),"iffalse")
            elif m:
                a,b=m.group(2).rsplit(";",1)
                add(m.group(1)+a+"; false && ("+b.strip()+")"+m.group(3),"iffalse")
            # case list drop
            m=re.match(r"^(\s*case )(.*):$",l)
            if m and "," in m.group(2) and "(" not in m.group(2):
                p=[x.strip() for x in m.group(2).split(",")]
                for k in range(len(p)): add(m.group(1)+", ".join(p[:k]+p[k+1:])+":","case")
            # return err -> return nil
            m=re.match(r"^(\s*return )(err|nil, err)$",l)
            if m: add(m.group(1)+("nil" if m.group(2)=="err" else "nil, nil"),"swallow")
            m=re.match(r"^(\s*return .*)errors\.(New|Wrapf?|Errorf)\(.*\)$",l)
            if m: add(m.group(1)+"nil","swallow")
            # argument variadic drop
            m=re.search(r"(SINGLE_QUOTE_IDENT|DOUBLE_QUOTE_IDENT|BACKTICK_IDENT|IDENT), ",code)
            if m and "case" not in code: add(code[:m.start()]+code[m.end():],"arg")
            # swap with next line (simple statements)
            if i+1<len(lines) and i+1 in base:
                n=lines[i+1]
                if re.match(r"^\s*[\w.]+\(.*\)$|^\s*[\w.]+ (=|:=|\+=) .*[^{]$",l) and re.match(r"^\s*[\w.]+\(.*\)$|^\s*[\w.]+ (=|:=|\+=) .*[^{]$",n):
                    out.append(dict(file=f,line=i,old=l+"\n"+n,new=n+"\n"+l,kind="swap"))
    random.seed(7); random.shuffle(out)
    for k,o in enumerate(out): o["id"]="m%04d"%k
    json.dump(out,open("/tmp/mut/list.json","w"),indent=0)
    from collections import Counter
    print(len(out),Counter(o["kind"] for o in out),Counter(o["file"] for o in out))


def filter_():
    N=int(sys.argv[2])
    L=json.load(open('/tmp/mut/list.json'))
    ENV=dict(os.environ,PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"],GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOPATH="/root/go",GOMODCACHE="/root/go/pkg/mod",GOCACHE="/root/.cache/go-build")
    done={}
    try:
        for l in open('/tmp/mut/filter.jsonl'):
            d=json.loads(l); done[d['id']]=d
    except FileNotFoundError: pass
    q=queue.Queue()
    for m in L:
        if m['id'] not in done: q.put(m)
    lock=threading.Lock()
    out=open('/tmp/mut/filter.jsonl','a')
    def work(k):
        w=f'/tmp/mut/w{k}'
        if not os.path.exists(w): shutil.copytree('/repo',w,symlinks=True)
        while True:
            try: m=q.get_nowait()
            except queue.Empty: return
            p=w+'/'+m['file']; src=open('/repo/'+m['file']).read(); ls=src.split('\n')
            n=m['old'].count('\n')+1
            assert '\n'.join(ls[m['line']:m['line']+n])==m['old']
            ls[m['line']:m['line']+n]=m['new'].split('\n')
            open(p,'w').write('\n'.join(ls))
            try:
                r=subprocess.run("go build ./... 2>/dev/null || exit 7; timeout 60 go test -vet=off -count=1 -timeout 40s ./... >/dev/null 2>&1 || exit 8",shell=True,cwd=w,env=ENV).returncode
            finally: open(p,'w').write(src)
            with lock:
                out.write(json.dumps(dict(id=m['id'],r=r))+'\n'); out.flush()
    T=[threading.Thread(target=work,args=(k,)) for k in range(N)]
    [t.start() for t in T]; [t.join() for t in T]


def run():
    L={m['id']:m for m in json.load(open('/tmp/mut/list.json'))}
    surv=[json.loads(l)['id'] for l in open('/tmp/mut/filter.jsonl') if '"r": 0' in l]
    files=None; IDS=sys.argv[2].split()
    N=1000
    ORDER={'parser.go':'C07 C05 C06 C04 C09 C10 C29 C08 C03','lexer.go':'C02 C01 C22 C07 C09 C05 C03','source.go':'C19 C20 C24',
    'format/':'C08 C09 C18','diff/':'C17 C16 C18 C15 C28 C13 C14','model/':'C06 C10 C07 C23 C26 C28 C11 C08',
    'cmd/':'C25','lint/':'C21 C27 C18','errors.go':'C22 C03','internal/':'C08 C27 C21 C18 C26'}
    ENV=dict(os.environ,PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"],GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOPATH="/root/go",GOMODCACHE="/root/go/pkg/mod",GOCACHE="/root/.cache/go-build")
    done=set()
    try:
        for l in open('/tmp/mut/run.jsonl'): done.add(json.loads(l)['id'])
    except FileNotFoundError: pass
    w='/tmp/mut/r'
    n=0
    for id in IDS:
        m=L[id]
        if id in done or id not in IDS: continue
        if files and not any(m['file'].startswith(f) for f in files): continue
        if n>=N: break
        n+=1
        subprocess.run(['rm','-rf',w]); subprocess.check_call(['cp','-a','/repo',w])
        p=w+'/'+m['file']; ls=open('/repo/'+m['file']).read().split('\n')
        k=m['old'].count('\n')+1
        if '\n'.join(ls[m['line']:m['line']+k])!=m['old']: continue
        ls[m['line']:m['line']+k]=m['new'].split('\n'); open(p,'w').write('\n'.join(ls))
        order=next((v for f,v in ORDER.items() if m['file'].startswith(f)),'C25').split()
        hit=None; t=time.time(); note=[]
        for c in order:
            try:
                r=subprocess.run(["/verif/bin/gosym","check","-property",c,"-tier","quick","-repo",w,"-verif","/verif","-noevidence"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=ENV,timeout=400)
            except subprocess.TimeoutExpired: note.append(c+':timeout'); continue
            if r.returncode==1: hit=c; break
            if r.returncode!=0: note.append(c+':rc%d '%r.returncode+r.stdout.decode(errors='replace')[-200:])
        d=dict(id=id,file=m['file'],line=m['line']+1,kind=m['kind'],old=m['old'].strip(),new=m['new'].strip(),hit=hit,note=note,t=round(time.time()-t))
        open('/tmp/mut/run.jsonl','a').write(json.dumps(d)+'\n')
        print(id,hit,d['t'],m['file'],m['line']+1,m['kind'],'|',m['old'].strip()[:70],'=>',m['new'].strip()[:70],note and note or '',flush=True)


os.makedirs('/tmp/mut', exist_ok=True)
{'list': mutants, 'filter': filter_, 'run': run}[sys.argv[1]]()
