#!/usr/bin/env python3
"""One-off bootstrap: read the message classes of /repo and print the wire tables
as TLA+ modules (spec/Schema<Proto>.tla).  NOT used by any check: the committed
TLA+ tables are the specification, the code is judged against them."""
import re, glob, os, sys, json
R='/repo'
MODS=[('Sse','sse','sse-bin/src/main/java/com/finproto/sse/bin/messages'),
      ('Szse','szse','szse-bin/src/main/java/com/finproto/szse/bin/messages'),
      ('Bjse','bjse','bjse-bin/src/main/java/com/finproto/bjse/trade/messages'),
      ('Risk','risk','risk-bin/src/main/java/com/finproto/risk/bin/messages'),
      ('Sample','sample','sample-bin/src/main/java/com/finproto/sample/messages')]
W={'Byte':1,'Short':2,'Int':4,'Long':8,'Float':4,'Double':8}
def body(src,name):
    m=re.search(r'public void '+name+r'\(ByteBuf byteBuf\) \{',src)
    i=m.end();d=1
    while d:
        if src[i]=='{':d+=1
        elif src[i]=='}':d-=1
        i+=1
    return re.sub(r'\s+',' ',src[m.end():i-1]).strip()
def split_classes(src):
    """yield (name, text) for outer and nested classes"""
    out=[]
    for m in re.finditer(r'class (\w+) implements BinaryCodec \{',src):
        i=m.end();d=1
        while d:
            if src[i]=='{':d+=1
            elif src[i]=='}':d-=1
            i+=1
        out.append((m.group(1),m.start(),i))
    res=[]
    for n,(name,s,e) in enumerate(out):
        t=src[s:e]
        for (n2,s2,e2) in out:
            if s2>s and e2<e: t=t.replace(src[s2:e2],'')
        outer=None
        for (n2,s2,e2) in out:
            if s2<s and e2>e: outer=n2
        res.append((name,outer,t))
    return res
def parse_fields(t):
    return re.findall(r'private (?!static)(?:final )?([\w<>]+) (\w+)(?: = [^;]*)?;',t)
ENC=[
 (r'byteBuf\.write(Byte|Short|Int|Long|Float|Double)(LE)?\(this\.(\w+)\); ?',lambda m:('num',m[3],W[m[1]],m[1],bool(m[2]))),
 (r"writeFixedString\(byteBuf, this\.(\w+), (\d+)\); ?",lambda m:('fstr',m[1],int(m[2]),' ',False)),
 (r"writeFixedString\(\s*byteBuf, this\.(\w+), (\d+), '(.|\\0)', (true|false)\); ?",lambda m:('fstr',m[1],int(m[2]),m[3],m[4]=='true')),
 (r"if \(StringUtil\.isNullOrEmpty\(this\.(\w+)\)\) \{ byteBuf\.write(Short|Int)\(0\); \} else \{ byte\[\] bytes = this\.\1\.getBytes\(StandardCharsets\.UTF_8\); byteBuf\.write(Short|Int)(LE)?\(bytes\.length\); byteBuf\.writeBytes\(bytes\); \} ?",lambda m:('dstr',m[1],W[m[3]],bool(m[4]))),
 (r"if \(null == this\.(\w+) \|\| this\.\1\.size\(\) == 0\) \{ byteBuf\.write(Short|Int)\(0\); \} else \{ byteBuf\.write(Short|Int)(LE)?\(\((?:short|int)\) this\.\1\.size\(\)\); for \(int i = 0; i < this\.\1\.size\(\); i\+\+\) \{ (?P<el>.*?) \} \} ?(?=if \(null ==|if \(StringUtil|if \(null !=|byteBuf|writeFixed|this|$)",lambda m:('list',m[1],W[m[3]],bool(m[4]),m['el'])),
 (r"this\.(\w+)\.encode\(byteBuf\); ?",lambda m:('obj',m[1],True)),
 (r"if \((?:null != this\.(\w+)|this\.(\w+) != null)\) \{ this\.\w+\.encode\(byteBuf\); \} ?",lambda m:('dyn',m[1] or m[2])),
]
ELE=[
 (r'byteBuf\.write(Byte|Short|Int|Long|Float|Double)(LE)?\(this\.\w+\.get\(i\)\);',lambda m:('num','',W[m[1]],m[1],bool(m[2]))),
 (r"writeFixedString\(byteBuf, this\.\w+\.get\(i\), (\d+)\);",lambda m:('fstr','',int(m[1]),' ',False)),
 (r"writeFixedString\(\s*byteBuf, this\.\w+\.get\(i\), (\d+), '(.|\\0)', (true|false)\);",lambda m:('fstr','',int(m[1]),m[2],m[3]=='true')),
 (r"this\.\w+\.get\(i\)\.encode\(byteBuf\);",lambda m:('obj','',True)),
 (r"if \(StringUtil\.isNullOrEmpty\(this\.\w+\.get\(i\)\)\) .*byteBuf\.write(Short|Int)(LE)?\(bytes\.length\); byteBuf\.writeBytes\(bytes\); ?\}?",lambda m:('dstr','',W[m[1]],bool(m[2]))),
]
def parse_enc(b):
    out=[]
    while b:
        for p,f in ENC:
            m=re.match(p,b)
            if m: out.append(f(m)); b=b[m.end():]; break
        else: raise Exception('cannot parse: '+b[:200])
    res=[]
    for k in out:
        if k[0]=='list':
            for p,f in ELE:
                m=re.fullmatch(p,k[4])
                if m: res.append(('list',k[1],k[2],k[3],f(m))); break
            else: raise Exception('elem: '+k[4])
        else: res.append(k)
    return res
def parse_dec(b,name):
    """flat list of (op-order) names read, for a symmetry check"""
    return re.findall(r'(?:this\.(\w+) = (?!new)|this\.(\w+)\.decode|(?:short|int) (\w+)(?:Size|Len) =)',b)
if __name__=='__main__':
    proto={}
    for P,p,d in MODS:
        tab={}
        for f in sorted(glob.glob(f'{R}/{d}/*.java')):
            src=open(f).read()
            for name,outer,t in split_classes(src):
                fl=parse_fields(t); ty=dict((n,T) for T,n in fl)
                e=body(t,'encode')
                frame=None
                if 'LenPos' in e or 'LengthPos' in e:
                    frame=True
                    # normalise frame code
                    e=re.sub(r'int (\w+)Pos = byteBuf\.writerIndex\(\); byteBuf\.write(Int)(LE)?\(0\);',r'LENHDR \1 \3;',e)
                    e=re.sub(r'int \w+(Start|End) = byteBuf\.writerIndex\(\);','',e)
                    e=re.sub(r'this\.\w+ = \(int\) \(\w+ - \w+\); byteBuf\.setInt(LE)?\([^;]*\);','',e)
                    mck=re.search(r'getChecksumService\("(\w+)"\)',e)
                    e=re.sub(r'ChecksumService<.*?\} byteBuf\.write',r'byteBuf.write',e)
                    e=re.sub(r'\s+',' ',e).strip()
                    parts=re.split(r'LENHDR (\w+) (LE)?;',e)
                    fs=parse_enc(parts[0].strip()+' ')+[('blen',parts[1],4,parts[2]=='LE')]+parse_enc(parts[3].strip()+' ' )
                    ck=mck.group(1) if mck else None
                    if ck:
                        last=fs[-1]; assert last[0]=='num'; fs[-1]=('chk',last[1],4,last[4],ck)
                else: fs=parse_enc(e)
                assert [k[1] for k in fs]==[n for _,n in fl if n not in('applExtendMap','value')],(name,fs,fl)
                dn=[a or b or c for a,b,c in parse_dec(body(t,'decode'),name)]
                dd=[]; 
                for x in dn:
                    if x not in dd and x in ty: dd.append(x)
                assert dd==[k[1] for k in fs],(name,dd,[k[1] for k in fs])
                facs={}
                for m in re.finditer(r'(?:register\(|\bput\()\s*(?:(\w+)\.class,\s+MessageType\.(\w+)\.getValue\(\)|\((?:int|short)\) (\d+)|"(\w+)"),\s*(\w+)::new\)',t):
                    if m[2]:
                        k=int(re.search(r'\b'+m[2]+r'\((\d+)\)',t)[1])
                    elif m[3]: k=int(m[3])
                    else: k=m[4]
                    facs[k]=m[5]
                m=re.search(r'this\.(\w+) = (?:(\w+MessageFactory)\.getInstance\(\)\.create|createApplExtend)\(this\.(\w+)\)',t)
                dk=m[3] if m else None
                objt={}
                for n,T in ty.items():
                    mm=re.match(r'List<(\w+)>',T); objt[n]=mm[1] if mm else T
                nn=(outer+'.' if outer else '')+name
                tab[nn]=dict(fields=fs,types=objt,facs=facs,dk=dk,outer=outer,fac=bool(re.search('MessageFactory',t)))
        proto[P]=(p,tab,d)
    def q(s): return '"'+s+'"'
    for P,(p,tab,d) in proto.items():
        L=[]
        def full(cls,me):
            for c in (me+'.'+cls, (me.split('.')[0])+'.'+cls, cls):
                if c in tab: return f'{p}_{c}'.replace('.','_')
            raise Exception(cls)
        def prim(k,n,me,T):
            if k[0]=='num':
                fl='F' if k[3] in('Float','Double') else 'N'
                return f'{fl}({q(n)}, {k[2]}, {"LE" if k[4] else "BE"})'
            if k[0]=='fstr':
                if k[3]==' ' and not k[4]: return f'S({q(n)}, {k[2]})'
                pc={' ':32,'0':48,'\\0':0}[k[3]]
                return f'SP({q(n)}, {k[2]}, {pc}, {"TRUE" if k[4] else "FALSE"})'
            if k[0]=='dstr': return f'V({q(n)}, {k[2]}, {"LE" if k[3] else "BE"})'
            if k[0]=='obj': return f'O({q(n)}, {q(full(T,me))})'
            raise Exception(k)
        for n,t in tab.items():
            rows=[]
            for k in t['fields']:
                if k[0]=='list': rows.append(f'L({q(k[1])}, {k[2]}, {"LE" if k[3] else "BE"}, {prim(k[4],"",n,t["types"][k[1]])})')
                elif k[0]=='dyn': rows.append(f'D({q(k[1])}, {q(t["dk"])})')
                elif k[0]=='blen': rows.append(f'BLEN({q(k[1])}, {k[2]}, {"LE" if k[3] else "BE"})')
                elif k[0]=='chk': rows.append(f'CHK({q(k[1])}, {k[2]}, {"LE" if k[3] else "BE"}, {q(k[4])})')
                else: rows.append(prim(k,k[1],n,t['types'][k[1]]))
            L.append((f'{p}.{n}',rows))
        with open(f'/verif/spec/Schema{P}.tla','w') as o:
            o.write(f'---------------------------- MODULE Schema{P} ----------------------------\n')
            o.write(f'(* Wire tables of the {p.upper()} protocol: for every message class the ordered list of its\n   wire fields.  See WireKinds.tla for the field constructors. *)\nEXTENDS WireKinds\n\n')
            o.write(f'{P}Package == "{d.split("java/")[1].replace("/",".")}"\n\n')
            for n,rows in L:
                o.write(f'{n.replace(".","_")} ==\n  << '+',\n     '.join(rows)+' >>\n\n')
            o.write(f'{P}Messages ==\n  [ '+',\n    '.join(f'{n.replace(".","_")} |-> {n.replace(".","_")}' for n,_ in L)+' ]\n\n')
            for n,t in tab.items():
                if t['facs']:
                    pairs=list(t['facs'].items())
                    strk=isinstance(pairs[0][0],str)
                    o.write(f'(* {n}: selector -> class of its dynamic part *)\n{p}_{n}_Types ==\n  << '+',\n     '.join(f'<<{q(k) if strk else k}, {q(p+'_'+c)}>>' for k,c in pairs)+' >>\n\n')
            o.write('='*77+'\n')
    print({P:len(t[1]) for P,t in proto.items()})
    for P,(p,tab,d) in proto.items():
        for n,t in tab.items():
            if t['dk'] or t['facs']: print(P,n,t['dk'],len(t['facs']),'fac' if t['fac'] else 'private')
