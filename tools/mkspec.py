"""One-off helper (not run by any check): drafts /verif/spec/*.json from the extraction."""
import json
x=json.load(open('/tmp/ext.json')); en=json.load(open('/tmp/enums.json'))
FLAGS={'FrozenBehavior':'u8','ObjectStateAppearanceGeneral':'u16','LandPlatformAppearance':'u32'}
PR={'u8','i8','u16','i16','u32','i32','u64','i64','f32','f64'}
def spec(t):
    t=t.replace(' ','')
    if t in PR: return t
    if t in FLAGS: return 'flags:%s:%s'%(t,FLAGS[t])
    if t in en: return 'enum:'+t
    if t in x['recs']: return 'rec:'+t
    if t.startswith('['):
        e,n=t[1:-1].split(';'); return 'arr:%s:%s'%(e,n)
    if t.startswith('Vec<'): return 'vec:'+spec(t[4:-1])
    if t.startswith('Option<'): return 'opt:'+spec(t[7:-1])
    if t=='String': return 'str:11'
    return '??'+t
W={'u8':1,'i8':1,'u16':2,'i16':2,'u32':4,'i32':4,'u64':8,'i64':8,'f32':4,'f64':8}
P={}
for n,p in x['pdus'].items():
    P[n]={'module':p['family'],'header':p['header'],'type':p['type'],
      'type_code':dict(en['PduType']['variants'])[p['type']],'family':p['pf'],
      'family_code':dict(en['ProtocolFamily']['variants'])[p['pf']],
      'fields':[[f[0],('pad:%d'%W[f[1]] if not f[2] and f[1] in W else spec(f[1])),f[3]] for f in p['fields']]}
R={}
for n,r in x['recs'].items():
    if n in('PduHeader','LiveEntityPduHeader','PduStatusRecord'): continue
    R[n]={'file':r['file'],'fields':[[f[0],('pad:%d'%W[f[1]] if not f[2] and f[1] in W else spec(f[1]))] for f in r['fields']]}
def dump(o,fn):
    s='{\n'
    s+=',\n'.join(' %s: {%s}'%(json.dumps(k),', '.join('%s: %s'%(json.dumps(a),('[\n   '+',\n   '.join(json.dumps(z) for z in b)+']') if a=='fields' else json.dumps(b)) for a,b in v.items())) for k,v in o.items())
    open(fn,'w').write(s+'\n}\n')
dump(P,'/verif/spec/pdus.json');dump(R,'/verif/spec/records.json')
E={}
for n,e in en.items():
    E[n]={'width':e['width'],'field':e['flen'],'default':e['default'],'variants':e['variants']}
open('/verif/spec/enums.json','w').write('{\n'+',\n'.join(' %s: %s'%(json.dumps(k),json.dumps(v)) for k,v in E.items())+'\n}\n')
