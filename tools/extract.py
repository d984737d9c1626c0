"""One-off helper (not run by any check): drafts the spec tables from the source tree."""
import re,glob,json,sys
def strip(s):
    return re.sub(r'//[^\n]*','',s)
def fields(body):
    out=[]
    body=re.sub(r'#\[(?!len)[^\]]*\]','',body)
    for part in re.split(r',\s*(?![^<\[(]*[>\])])',body):
        part=part.strip()
        if not part: continue
        m=re.match(r'(?:#\[len\s*=\s*(\w+)\]\s*)?(pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.+)$',part,re.S)
        if m: out.append([m[3],m[4].strip().replace('crate::common::data_types::',''),bool(m[2]),m[1]])
        else: print('??',part,file=sys.stderr)
    return out
pdus={};recs={}
for f in sorted(glob.glob('/repo/src/**/*.rs',recursive=True)):
    s=open(f).read()
    if f.endswith('pdu_macro.rs') or f.endswith('/enums.rs'): continue
    s=strip(s)
    s=re.sub(r'#\[cfg\(test\)\].*','',s,flags=re.S)
    for m in re.finditer(r'define_pdu!\s*\{(.*?)\n\s*\}\s*\n\s*\}?',s,re.S):
        pass
    for m in re.finditer(r'pub struct (\w+) \{\s*header: (\w+),\s*pdu_type: ([^,]+),\s*protocol_family: ([^,]+),\s*fields: \{(.*?)\n    \s*\}',s,re.S):
        pdus[m[1]]={'family':f.split('/')[3].replace('.rs',''),'header':m[2],'type':m[3].split('::')[-1],'pf':m[4].split('::')[-1],'fields':fields(m[5])}
    if '/data_types/' in f or 'common/' in f:
        for m in re.finditer(r'pub struct (\w+) \{(.*?)\n\}',s,re.S):
            recs[m[1]]={'file':f.split('/repo/')[1],'fields':fields(m[2])}
json.dump({'pdus':pdus,'recs':recs},open('/tmp/ext.json','w'),indent=1)
print(len(pdus),len(recs))
# ---- enums
s=open('/repo/src/common/enums.rs').read()
s=strip(s)
enums={}
for m in re.finditer(r'pub enum (\w+) \{(.*?)\n\}',s,re.S):
    name,body=m[1],m[2]
    vs=[];nxt=0;dflt=None;pend=False
    for line in body.split('\n'):
        line=line.strip()
        if line=='#[default]': pend=True;continue
        if line.startswith('#') or not line: continue
        mm=re.match(r'(\w+)(?:\s*=\s*(0x[0-9a-fA-F_]+|[0-9_]+))?,?$',line)
        if not mm: print('??',name,line,file=sys.stderr);continue
        v=int(mm[2].replace('_',''),0) if mm[2] else nxt
        nxt=v+1
        vs.append([mm[1],v])
        if pend: dflt=mm[1];pend=False
    if not dflt:
        d=re.search(r'impl Default for %s \{.*?Self::(\w+)'%name,s,re.S)
        dflt=d and d[1]
    d=re.search(r'impl %s \{(.*?)\n\}'%name,s,re.S)
    w=None;how=None
    if d:
        x=re.search(r'from_(u\d+)\(buf\.get_(u\d+)\(\)\)',d[1])
        if x: w={'u8':1,'u16':2,'u32':4,'u64':8}[x[2]]; how=x[0]
        if not x: how=d[1][:300]
    fl=re.search(r'impl FieldLen for %s \{.*?usize \{\s*(\d+)'%name,s,re.S)
    fs=re.search(r'impl FieldSerialize for %s \{.*?put_(u\d+)'%name,s,re.S)
    attrs=s[max(0,m.start()-200):m.start()].split('\n\n')[-1]
    enums[name]={'variants':vs,'default':dflt,'width':w,'flen':int(fl[1]) if fl else None,'fser':fs[1] if fs else None}
    if fl and (int(fl[1])!=w or {'u8':1,'u16':2,'u32':4,'u64':8}[fs[1]]!=w): print('WIDTH',name,w,fl[1],fs[1])
    if w is None: print('NOW',name,how)
    if any(v>=1<<(8*(w or 1)) for _,v in vs): print('TOOBIG',name,w,[v for v in vs if v[1]>=1<<(8*(w or 1))][:4])
    if len(set(v for _,v in vs))!=len(vs): print('DUP',name)
    if not dflt: print('NODEF',name)
json.dump(enums,open('/tmp/enums.json','w'))
print(len(enums))
