import sys, random, re, time, collections
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from bbv import engine, gen, suite
from bbv.model import *
B=Basic
def N(name,t,bits=None,order=None,**k): return Field('normal',name,t,bits,order=order,**k)
def K(name,t,v,txt=None,bits=None,order=None): return Field('const',name,B(t) if isinstance(t,str) else t,bits,order=order,const=v,const_text=txt or (('true' if v else 'false') if isinstance(v,bool) else repr(v)))
def V(b): return Field('void',bits=b)
FE={}
def feat(name,defs,**k): FE[name]=(defs,k)
def cs(name,*fs):
    tot=sum(f.bits for f in fs if not f.dynamic)
    fs=list(fs)
    if tot%8: fs.append(V(8-tot%8))
    fs.append(N('tail_x',B('uint8')))
    feat(name,[Struct('St1',fs)])
cs('const_unnamed',K(None,'uint8',5))
cs('const_u8',K('ka','uint8',200))
cs('const_u8n',K('ka','uint8',5,bits=3))
cs('const_u32_24',K('ka','uint32',0x123456,bits=24))
cs('const_u32_24big',K('ka','uint32',0x123456,bits=24,order='big'))
cs('const_u32big',K('ka','uint32',0x12345678,order='big'))
cs('const_u16_12big',K('ka','uint16',0x123,bits=12,order='big'))
cs('const_u64',K('ka','uint64',0x123456789abcdef0))
cs('const_u64big63',K('ka','uint64',(1<<63)-1,order='big'))
cs('const_i8neg',K('ka','int8',-5))
cs('const_i16neg',K('ka','int16',-300))
cs('const_i32neg',K('ka','int32',-300000))
cs('const_i64neg',K('ka','int64',-3000000000000))
cs('const_i16neg_12',K('ka','int16',-300,bits=12))
cs('const_i32neg_20big',K('ka','int32',-30000,bits=20,order='big'))
cs('const_i64pos',K('ka','int64',3000000000000))
cs('const_bool',K('ka','bool',True))
cs('const_bool1',K('ka','bool',True,bits=1))
cs('const_boolF',K('ka','bool',False,bits=3))
cs('const_f32',K('ka','float32',1.5))
cs('const_f32neg',K('ka','float32',-2.25))
cs('const_f64',K('ka','float64',0.1))
cs('const_f64big',K('ka','float64',-0.1,order='big'))
e=Enum('En1',8,[('EA',0,None),('EB',7,'7'),('EC',8,None)])
eA=Enum('EnA',16,[('AA',0,None),('AB',200,'200'),('AC',65535,'65535'),('AD',40000,'40000'),('AE',127,'127'),('AF',128,'128')])
eB=Enum('EnB',8,[('BA',0,None),('BB',200,'200'),('BC',255,'255'),('BD',128,'128')])
eC=Enum('EnC',32,[('CA',0,None),('CB',200,'200'),('CC',40000,'40000'),('CD',(1<<31)-1,hex((1<<31)-1)),('CE',130,'130')])
for w in (3,7,8,9,12,15,16):
    feat('enumw16_%d'%w,[eA,Struct('St1',[N('aa',eA,w),N('ab',eA,w,order='big'),N('ac',eA,w),N('ad',eA,w,order='big'),N('ae',eA,w),N('af',eA,w),N('ag',eA,w),N('ah',eA,w)])])
for w in (7,8,9,15,16,17,24,31,32):
    feat('enumw32_%d'%w,[eC,Struct('St1',[N('aa',eC,w),N('ab',eC,w,order='big'),N('ac',eC,w),N('ad',eC,w,order='big'),N('ae',eC,w),N('af',eC,w),N('ag',eC,w),N('ah',eC,w)])])
    feat('enumaw32_%d'%w,[eC,Struct('St1',[N('aa',Arr(eC,8),w*8),N('ab',Arr(eC,3),w*3,order='big'),N('ac',Arr(eC,5),w*5)])])
for w in (1,4,7,8):
    feat('enumw8_%d'%w,[eB,Struct('St1',[N('aa',eB,w),N('ab',eB,w,order='big'),N('ac',eB,w),N('ad',eB,w,order='big'),N('ae',eB,w),N('af',eB,w),N('ag',eB,w),N('ah',eB,w)])])
    feat('enumaw8_%d'%w,[eB,Struct('St1',[N('aa',Arr(eB,8),w*8),N('ab',Arr(eB,3),w*3,order='big'),N('ac',Arr(eB,5),w*5)])])
e3=Enum('En3',32,[('EA',0,None),('EB',(1<<31)-1,hex((1<<31)-1))])
feat('enum32',[e3,Struct('St1',[N('ee',e3),N('ef',e3,order='big')])])
e4=Enum('En4',24,[('EA',0,None),('EB',(1<<24)-1,hex((1<<24)-1))])
feat('enum24arr',[e4,Struct('St1',[N('ee',Arr(e4,3)),N('ef',Arr(e4,6),order='big')])])
e5=Enum('En5',9,[('EA',0,None),('EB',511,'511')])
feat('enum9arr',[e5,Struct('St1',[N('ee',Arr(e5,8)),N('ef',e5),N('eg',Arr(e5,7),order='big')])])
e6=Enum('En6',1,[('EA',0,None),('EB',1,'1')])
feat('enum1',[e6,Struct('St1',[N('ee',e6),N('ef',Arr(e6,7))])])
feat('enum_overflow_narrow',[e,Struct('St1',[N('ee',e,4),N('ef',e,4)])])
din=Struct('Dyn',[N('a',B('uint8')),N('s',Str())])
feat('nested_dyn',[din,Struct('St1',[N('x',B('uint8')),N('dd',din),N('y',B('uint16'))])])
feat('nested_dyn_arr',[din,Struct('St1',[N('x',B('uint8')),N('dd',Arr(din,3)),N('y',B('uint16'))])])
feat('nested_dyn_arr6',[din,Struct('St1',[N('x',B('uint8')),N('dd',Arr(din,6)),N('y',B('uint16'))])])
fin=Struct('Fix',[N('a',B('uint8')),N('b',B('int16'),order='big')])
feat('nested_fix',[fin,Struct('St1',[N('x',B('uint8')),N('dd',fin),N('da',Arr(fin,6)),N('y',B('uint16'))])])
feat('nested_fix_dynafter',[fin,Struct('St1',[N('s',Str()),N('dd',fin),N('da',Arr(fin,6)),N('y',B('uint16'))])])
inl=Struct('Emb',[N('ea',B('uint8'),3),N('eb',B('uint8'),5)]); inl.inline=True
feat('embed_inline',[Struct('St1',[N('x',B('uint8')),Field('embed',struct=inl,inline=True),N('y',B('uint16'))])])
em=Struct('Emd',[N('ea',B('uint8'),3),N('eb',B('uint8'),5),N('es',Str())])
feat('embed_named_dyn',[em,Struct('St1',[N('x',B('uint8')),Field('embed',struct=em),N('y',B('uint16'))])])
inl2=Struct('Emc',[K('kc','uint8',9),N('ea',B('uint8'))]); inl2.inline=True
feat('embed_const',[Struct('St1',[N('x',B('uint8')),Field('embed',struct=inl2,inline=True),N('y',B('uint16'))])])
inl3=Struct('Eme',[N('ea',B('uint8'),methods=[Method('get','raw2','uint8','(uint8)(value)')])]); inl3.inline=True
feat('embed_method',[Struct('St1',[N('x',B('uint8')),Field('embed',struct=inl3,inline=True),N('y',B('uint16'))])])
em4=Struct('Emf',[N('ea',B('uint8'),methods=[Method('get','raw2','uint8','(uint8)(value)')])])
feat('embed_named_method',[em4,Struct('St1',[N('x',B('uint8')),Field('embed',struct=em4),N('y',B('uint16'))])])
feat('strings',[Struct('St1',[N('s',Str()),N('t',Str()),N('sa',Arr(Str(),3)),N('sb',Arr(Str(),6))])])
feat('bytes',[Struct('St1',[N('s',Byt()),N('t',Byt()),N('sa',Arr(Byt(),3)),N('sb',Arr(Byt(),6))])])
feat('leadvoid',[Struct('St1',[V(12),N('a',B('uint16'),9),N('b',B('uint8'),3)])])
feat('bool_narrow',[Struct('St1',[N('a',B('bool'),3),N('b',Arr(B('bool'),5),5),N('c',B('bool'),order='big'),N('d',Arr(B('bool'),8)),])])
feat('boolarr_big',[Struct('St1',[N('b',Arr(B('bool'),6),24,order='big'),N('c',Arr(B('bool'),3),9,order='big'),N('d',B('uint8'),7)])])
feat('floats',[Struct('St1',[N('a',B('float32')),N('b',B('float64'),order='big'),N('c',Arr(B('float32'),6)),N('d',Arr(B('float64'),6),order='big')])])
feat('float_narrow',[Struct('St1',[N('a',B('float32'),31),N('b',B('float64'),57,order='big'),N('c',Arr(B('float32'),6),6*30,order='big'),N('z',B('uint8'),4)])])
feat('intarr_narrow',[Struct('St1',[N('a',Arr(B('int16'),6),72),N('b',Arr(B('uint32'),5),5*21,order='big'),N('c',Arr(B('int64'),3),3*61),N('d',Arr(B('int64'),7),7*61,order='big'),N('z',B('uint8'),5)])])
feat('i64arr',[Struct('St1',[N('a',Arr(B('int64'),6)),N('b',Arr(B('uint64'),6),order='big'),N('c',B('uint64'),order='big')])])
feat('one_arr',[fin,Struct('St1',[N('a',Arr(B('int8'),1)),N('b',Arr(Str(),1)),N('c',Arr(fin,1))])])
feat('empty_void',[Struct('St1',[V(8),N('a',B('uint8'))])])
def run(job):
    name,l,opts=job
    defs,k=FE[name]
    import copy
    defs=copy.deepcopy(defs)
    f=File('main.bb','aa.pmain',defs,{'go_package':'bbt/gen/pmain'})
    try: t=engine.TARGETS[l]([f],f,opts).prepare()
    except engine.GenFail as e: return name,l,'GEN',str(e)
    except engine.BuildFail as e: return name,l,'BLD',str(e)
    rng=random.Random(1); cmds=[]
    for s in f.structs():
        for j in range(10):
            v=gen.extreme_value(s,j) if j<2 else gen.gen_struct_value(rng,s)
            for fill in (0,0xff):
                cmds.append(suite.Encode(s,v,fill,2,'da'[j%2])); 
            w=cmds[-1].wire
            cmds.append(suite.Decode(s,w,start=j%3,tail=2,mode='da'[j%2]))
            cmds.append(suite.Framing(s,w,start=j%3,extra=b'\x80\xff')); cmds.append(suite.Truncated(s,w))
            cmds.append(suite.Hostile(s,bytes(rng.getrandbits(8) for _ in range(len(w)+3))))
            for fl in s.flat():
                pass
            d=bytearray(w)
            for b in range(len(w)*8):
                d=bytearray(w); d[b//8]^=1<<(b%8)
                try:
                    if decode(s,bytes(d))[2]: cmds.append(suite.BadConst(s,bytes(d),'bit %d'%b))
                except Exception: pass
    for i,c in enumerate(cmds): c.id=str(i)
    r=t.run([c.line() for c in cmds]); bad=collections.Counter(); first=''
    for c in cmds:
        m=c.judge(t,r.get(c.id,'CRASH missing'))
        if m:
            kk={'Encode':'E','Decode':'D','Framing':'Z','Truncated':'T','Hostile':'F','BadConst':'K'}[type(c).__name__]
            if kk=='E' and c.fill: kk='e'
            bad[kk]+=1
            if not first or (kk=='E' and not first.startswith('E')): first=kk+' '+m+' | '+c.line()[:150]
    return name,l,''.join('%s%d'%x for x in sorted(bad.items())),first
names=[n for n in FE if len(sys.argv)<2 or re.search(sys.argv[1],n)]
langs=sys.argv[2].split(',') if len(sys.argv)>2 and sys.argv[2]!='all' else list(engine.TARGETS)
opts=sys.argv[3].split() if len(sys.argv)>3 else []
engine.bubbler()
jobs=[(n,l,opts) for n in names for l in langs]
tab=collections.defaultdict(dict); det=[]
for name,l,st,first in engine.POOL.map(run,jobs):
    tab[name][l]=st
    if st: det.append((name,l,st,first))
print('%-24s'%'',*['%-14s'%l for l in langs])
for n in names:
    if any(tab[n].values()): print('%-24s'%n,*['%-14s'%(tab[n][l] or '.') for l in langs])
    else: print('%-24s ok'%n)
for d in det: print(d[0],d[1],d[2],'::',d[3][:int(sys.argv[4]) if len(sys.argv)>4 else 350].replace('\n','\n      '))
