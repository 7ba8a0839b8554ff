#!/usr/bin/env python3
"""mutate.py CRATE RELFILE [FROM TO]: textual mutants of one file, each compared with the reference.
Prints the mutants that raise no difference (S silent, I inconclusive)."""
import re,sys,os,subprocess,shutil,random
from concurrent.futures import ThreadPoolExecutor
import threading
crate,rel=sys.argv[1:3]
src=open('/repo/'+rel).read()
lines=src.split('\n')
end=len(lines)
for i,l in enumerate(lines):
    if l.strip().startswith('#[cfg(test)]') and i+1<len(lines) and 'mod ' in lines[i+1]:
        end=i;break
a,b=(int(sys.argv[3]),int(sys.argv[4])) if len(sys.argv)>4 else (1,end)
muts=[]
def add(i,new,why):
    if new!=lines[i]: muts.append((i,new,why))
SW=[(r' == ',' != '),(r' != ',' == '),(r' && ',' || '),(r' \|\| ',' && '),(r' <= ',' < '),(r' >= ',' > '),
    (r' < ',' <= '),(r' > ',' >= '),(r' \+ ',' - '),(r' - ',' + '),(r'\btrue\b','false'),(r'\bfalse\b','true'),
    (r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'\.is_ok\(\)','.is_err()'),(r'\.is_err\(\)','.is_ok()'),
    (r'\.is_empty\(\)','.len() == 1'),(r'\.any\(','.all('),(r'\.all\(','.any('),(r'\.first\(\)','.last()'),(r'\.last\(\)','.first()'),
    (r'\.start\b','.end'),(r'\.end\b','.start'),(r'if !','if '),(r'\bif (?=[a-z])(?!let)','if !'),(r'\.min\(','.max('),(r'\.max\(','.min('),
    (r'\b0\b','1'),(r'\b1\b','2'),(r'\.rev\(\)',''),(r'\.filter\(','.skip_while('),(r'::error\(','::warning('),(r'::warning\(','::error('),
    (r'\.cloned\(\)\.unwrap_or\(',".cloned().xor_("),(r'continue;','break;'),(r'break;','continue;'),(r'\bSome\(([^()]*)\)$','None'),
    (r'\.skip\(1\)',''),(r'\.trim\(\)',''),(r' as u32','  as u16 as u32'),(r'\breturn;',''),(r'\?;',';'),(r'\?$',''),(r'"([^"{}]{3,})"',r'"\1x"'),
    (r'\.sort\(\);',';'),(r'\.dedup\(\);',';'),(r'left','right'),(r'right','left'),(r'then_branch|then_block','else_branch'),(r'\.start,','.start.saturating_sub(1),')]
for i in range(a-1,min(b,end)):
    l=lines[i]; s=l.strip()
    if not s or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or s.startswith('pub use') or 'debug!' in s: continue
    if re.match(r'(pub(\(crate\))? )?(const )?fn ',s) : continue
    code=l.split(' //')[0]
    for p,r in SW:
        for m in re.finditer(p,code):
            add(i,code[:m.start()]+m.expand(r)+code[m.end():],p)
    # delete a statement
    if s.endswith(';') and (s.count('(')==s.count(')')) and not s.startswith(('let ','return','}',')','.')) and 'break' not in s and 'continue' not in s:
        add(i,'','del')
    # drop a call in a chain
    m=re.match(r'^\s*\.(\w+)\(.*\)(;?)$',code)
    if m and s.count('(')==s.count(')'):
        add(i,m.group(2),'dropchain')
    # swap two simple args
    for m in re.finditer(r'\((&?[\w.]+), (&?[\w.]+)\)',code):
        add(i,code[:m.start()]+f'({m.group(2)}, {m.group(1)})'+code[m.end():],'swap')
    # arm: empty the result
    m=re.match(r'^(\s*[^=]+ => )(.+),$',code)
    if m and '{' not in m.group(2): add(i,m.group(1)+'Default::default(),','arm')
    # or-pattern: drop one alternative
    m=re.match(r'^(\s*)\| [A-Z]\w+::',code)
    if m: add(i,m.group(1) if not code.rstrip().endswith('=> {') and '=>' not in code else code.replace('| ','| Zzz | ',1) ,'droppat')
    # enum variants
    for m in re.finditer(r'\b([A-Z]\w+)::([A-Z]\w+)\b',code):
        alts=sorted({x for x in re.findall(r'\b'+m.group(1)+r'::([A-Z]\w+)\b',src)}-{m.group(2)})
        if alts:
            random.seed(i*131+m.start())
            x=random.choice(alts)
            add(i,code[:m.start(2)]+x+code[m.end(2):],'variant')
random.seed(7)
cap=int(os.environ.get('CAP','100000'))
if len(muts)>cap: muts=random.sample(muts,cap)
dirs={'parser':'crates/compiler/parser','semantic':'crates/compiler/semantic','diagnostics':'crates/compiler/diagnostics','formatter':'crates/compiler/formatter','project':'crates/compiler/cairo-m-project','cargo_cairo_m':'crates/cargo-cairo-m','compiler':'crates/compiler/src','mir':'crates/compiler/mir','codegen':'crates/compiler/codegen','common':'crates/common','runner':'crates/runner','prover':'crates/prover'}
loc=threading.local(); cnt=[0]; lk=threading.Lock()
def root():
    if not hasattr(loc,'d'):
        with lk:
            cnt[0]+=1; d=f'/tmp/mt/{crate}{os.getpid()}_{cnt[0]}'
        if os.environ.get('RULES'):
            shutil.copytree('/repo/crates',d+'/crates',ignore=shutil.ignore_patterns('target'))
        else:
         for c in crate.split(','):
            shutil.copytree('/repo/'+dirs[c],d+'/'+dirs[c],ignore=shutil.ignore_patterns('target'))
        loc.d=d
    return loc.d
def run(m):
    i,new,why=m
    d=root()
    t=lines[:]; t[i]=new
    open(d+'/'+rel,'w').write('\n'.join(t))
    try:
        o=subprocess.run([os.environ.get('CS_BIN','/verif/analyzer/target/release/cairom-static'),'diff','/verif/reference',d],capture_output=True,text=True,timeout=120,env=dict(os.environ,CS_CRATES=crate,CS_THREADS='1')).stdout
    except subprocess.TimeoutExpired:
        o='! timeout'
    if re.search(r'^ERR',o,re.M): return m,'E'
    if re.search(r'^!',o,re.M): return m,'V'
    if re.search(r'^\?',o,re.M): return m,'I'
    if os.environ.get('RULES'):
        o=subprocess.run([os.environ.get('CS_BIN','/verif/analyzer/target/release/cairom-static'),'rules',d],capture_output=True,text=True).stdout
        k={l.strip() for l in o.split('\n') if re.match(r' *\[',l) and not re.search('query cycle definition_semantic_type|type name denotes a value|literal range only checked',l)}
        if k: return m,'V'
    return m,'S'
res={'E':0,'V':0,'I':0,'S':0}
with ThreadPoolExecutor(int(os.environ.get('JOBS','8'))) as ex:
    for m,r in ex.map(run,muts):
        res[r]+=1
        if r in 'SI': print(r,f'{m[0]+1}:',m[2],'|',lines[m[0]].strip()[:90],'=>',m[1].strip()[:90])
print(rel,res)
shutil.rmtree('/tmp/mt' if False else (os.path.dirname(loc.d) if hasattr(loc,'d') else '/tmp/mt'),ignore_errors=True)
