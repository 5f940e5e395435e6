#!/usr/bin/env python3
"""mutate.py OUT [PART/OF] [FILE...]: small syntactic changes to the contracts, one at a time, each built into the simulator
and hunted with all oracles; survivors are then run through the repository's tests. Meant to run inside tools/ns.sh with its
own copy of /repo. A survivor of both is either an equivalent change or something the checks do not see."""
import re,subprocess,sys,os,json,hashlib,random
out=sys.argv[1]; part,of=map(int,(sys.argv[2] if len(sys.argv)>2 else '0/1').split('/'))
only=sys.argv[3:]
R='/repo'
def files():
    r=[]
    for base in ['contracts','packages']:
        for d,_,fs in os.walk(f'{R}/{base}'):
            if '/tests' in d or '/target' in d or '/examples' in d: continue
            for f in fs:
                p=os.path.join(d,f)
                if f.endswith('.rs') and f not in('tests.rs','test.rs','error.rs','event.rs','build.rs','schema.rs') and 'test' not in d: r.append(p)
    return sorted(r)
SKIP=['packages/test-utils','packages/schema','mocks','/bin/','types/crypto' ,'packages/interface/src/macros','packages/interface/src/igp','packages/interface/src/warp/cw20','contracts/mocks']
SUB=[(r'==','!='),(r'!=','=='),(r'(?<![-=<>])>=(?!=)','>'),(r'<=','<'),(r'(?<=\s)>(?=\s)','>='),(r'(?<=\s)<(?=\s)','<='),(r'&&','||'),(r'\|\|(?=\s)','&&'),
 (r'(?<=[\s(])!(?=[A-Za-z])',''),(r'\+ 1\b','+ 2'),(r'- 1\b','- 2'),(r'\b32\b','31'),(r'\b32\b','33'),(r'\b20\b','21'),(r'\b27\b','28'),(r'\b64\b','63'),(r'\b65\b','66'),(r'\b0\b','1'),(r'\b1\b','2'),(r'\b16\b','15'),(r'\b4\b','5'),
 (r'exclusive','inclusive'),(r'inclusive','exclusive'),(r'Asc\b','Desc'),(r'Desc\b','Asc'),(r'Ascending','Descending'),
 (r'origin_domain','dest_domain'),(r'dest_domain','origin_domain'),(r'\bsender\b','recipient'),(r'\brecipient\b','sender'),(r'default_hook','required_hook'),(r'required_hook','default_hook'),
 (r'unwrap_or\((?!\))','unwrap_or_default(); let _ = ('),(r'\.or\(','.and('),(r'may_load','load'),(r'\.remove\(','.has('),(r'has\(','remove('),
 (r'info\.sender','env.contract.address'),(r'true','false'),(r'false','true'),(r'Some\(([a-z_.()]+)\)','None'),(r'\.is_zero\(\)','.is_zero() == false'),(r'\.is_some\(\)','.is_none()'),(r'\.is_empty\(\)','.is_empty() == false'),
 (r'\.take\(limit\)','.take(limit + 1)'),(r'\.clone\(\)','.clone()/*c*/'),(r'vec!\[\]','info.funds'),(r'info\.funds','vec![]'),(r'checked_sub','saturating_sub'),(r'\bmin\b','max'),(r'\bmax\b','min'),(r' \* ',' / '),(r' / ',' * '),(r' \+ ',' - '),(r' - ',' + '),(r'\.\.(\d)','..1+\\1'),(r'\bthreshold -= 1','threshold -= 2'),(r'bridged|Bridged','Collateral'),(r'Collateral','Bridged')]
def mutants():
    for p in files():
        rel=p[len(R)+1:]
        if any(s in rel for s in SKIP): continue
        if only and not any(o in rel for o in only): continue
        s=open(p).read()
        end=s.find('#[cfg(test)]')
        if end<0: end=len(s)
        body=s[:end]
        # single characters
        for pat,new in SUB:
            if '/*c*/' in new: continue
            for m in re.finditer(pat,body):
                ls=body.rfind('\n',0,m.start())+1
                le=body.find('\n',m.end())
                line=body[ls:le].strip()
                if line.startswith(('//','use ','pub use','#','pub mod','mod ','pub const CONTRACT','const CONTRACT')): continue
                if 'add_attribute' in line or 'add_event' in line or 'Event::new' in line or 'new_event' in line or 'generic_err' in line: continue
                if '->' in line or line.startswith(('fn ','pub fn','impl','struct','enum','pub struct','pub enum','import')): continue
                n=m.expand(new) if '\\1' in new else new
                yield rel,m.start(),m.end(),n
        # statements
        for m in re.finditer(r'^( +)(ensure(_eq)?!\((?:.|\n)*?\n\1\);|ensure(_eq)?!\([^\n]*\);|[A-Za-z_:.]+[^\n=;]*\?;|[a-z_]+\.(push|insert|remove|extend|append|add)\([^\n]*\);)\n',body,re.M):
            yield rel,m.start(2),m.end(2),''
        for m in re.finditer(r'^( +)([A-Z_]{4,}\.(?:save|remove|update)\((?:.|\n)*?\);|[A-Z_]{4,}\.(?:save|update)\((?:.|\n)*?\)\?;)\n',body,re.M):
            yield rel,m.start(2),m.end(2),''
        # lists
        for m in re.finditer(r'\n( +)\.add_message(s)?\([^\n]*\)',body):
            yield rel,m.start(),m.end(),''
def sh(c,t): 
    try: r=subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True); return r.returncode,r.stdout
    except subprocess.TimeoutExpired: return 124,''
seen=set(); L=[]
for m in mutants():
    if m not in seen: seen.add(m); L.append(m)
random.Random(5).shuffle(L)
L=[m for i,m in enumerate(L) if i%of==part]
done=set()
if os.path.exists(out): done={tuple(json.loads(l)['m']) for l in open(out)}
print(len(L),'mutants,',len(done),'done',flush=True)
B=os.environ.get('MUT_DIR','/tmp/mut'); T=B+'/target'
env='. '+B+'/sim/env.sh; export CARGO_TARGET_DIR='+T+';'
for m in L:
    if m in done: continue
    rel,a,b,n=m; p=f'{R}/{rel}'; s=open(p).read()
    open(p,'w').write(s[:a]+n+s[b:])
    ln=s[:a].count('\n')+1; ctx=s[s.rfind('\n',0,a)+1:s.find('\n',b)].strip()[:160]
    res={'m':m,'line':ln,'ctx':ctx}
    rc,o=sh(env+'cd '+B+'/sim && cargo build --release -q 2>&1',300)
    if rc: res['r']='nobuild'
    else:
        rc,o=sh(f'HPLSIM_ROOT={B}/root FIRST=1 {T}/release/hplsim hunt ALL 2600',400)
        vs=[l for l in o.split('\n') if l and not re.match(r'\d+ runs',l)]
        if vs or rc==124: res['r']='killed'; res['by']=' '.join(vs)[:200]
        else:
            rc,_=sh(f'bash /opt/vp/build.sh >{B}/b.log 2>&1 && bash /opt/vp/test.sh {B}/t.json >/dev/null 2>&1',900)
            try:
                t=set(json.load(open(f'{B}/t.json'))['passed']); base=json.load(open('/opt/vp/BASELINE.json'))['stable']
                bad=[x for x in base if x not in t]
            except Exception: bad=['build']
            if rc and not bad: bad=['rc']
            res['r']='tests' if bad else 'SURVIVED'
    open(p,'w').write(s)
    open(out,'a').write(json.dumps(res)+'\n')
    print(res['r'],rel,ln,repr(s[a:b][:60]),'->',repr(n),'|',ctx if res['r']=='SURVIVED' else '',flush=True)
