#!/usr/bin/env python3
"""Writes harness/uni/gen.go: the named Go types of the generated schemas."""
import random, os, subprocess
R = random.Random(20240117)
SC = ["bool","int","int8","int16","int32","int64","uint","uint8","uint16","uint32","uint64","float32","float64","string","string","MyInt","MyStr","MyF","MyB","time.Time","EColor","ESize","EFlag","EWord","EBig","ETiny"]
NS = 26
IMPL = {0:[0,1,2,20], 1:[2,3,4], 2:[5,6,7,0], 3:[8,9]}   # interface -> implementing structs
UNREG = {0:[24], 1:[24,25], 2:[25], 3:[25]}              # implement it in Go, but are not registered
names = ["Name","Title","Count","Owner","Parent","Child","Items","Extra","Note","Score","Ratio","Flag","Kind","Level","URL","X","Y1","Created","Tags","Matrix","Color","Other","Peer","Root","Leaf","Value","Info","Data","Body","Meta_data","HTTPCode","A","B2","LongFieldNameThatGoesOn","Inner"]
mnames = ["Fetch","Load","Find","List","Search","Compute","Sum","Related","Echo","Lookup","Best","URLOf","X","Total","History"]
inputs = ["InPoint","InRec","InAll","InDeep"]
out=[]
def w(s): out.append(s)
def scalar(): return R.choice(SC)
def structref(): return "S%d"%R.randrange(NS)
def iface(): return "I%d"%R.randrange(4)
def outtype(d, idx, viaptr=False, ret=False):
    """type of a field of struct idx; struct values only of higher index to avoid cycles"""
    x=R.random()
    if x<.45 or d>3: return scalar()
    if x<.57: return "*"+outtype(d+1, idx, True, ret)
    if x<.70: return "[]"+outtype(d+1, idx, True, ret)
    if x<.74: return "[%d]"%R.randrange(0,4)+outtype(d+1, idx, viaptr, ret)
    if x<.84: return iface()
    if viaptr or ret: return structref()
    if idx+1<NS and R.random()<.5: return "S%d"%R.randrange(idx+1,NS)
    return "*"+structref()
def intype(d=0):
    x=R.random()
    if x<.60 or d>2: return scalar()
    if x<.75: return "*"+intype(d+1)
    if x<.90: return "[]"+intype(d+1)
    if x<.93: return "*multipart.FileHeader"
    return R.choice(inputs)
IDABLE={"string","int","int8","int16","int32","int64","uint","uint8","uint16","uint32","uint64","MyInt","MyStr"}
def tag(t,n,arg=False):
    base=t
    while base.startswith("*"): base=base[1:]
    if base in IDABLE and R.random()<.18: return ' `gq:",id"`'
    if R.random()<.06: return ' `gq:"re_%s"`'%n.lower()
    return ''
def argstruct():
    n=R.randrange(1,5); ns=R.sample(names,n)
    fs=[]
    for a in ns:
        t=intype()
        fs.append("%s %s%s"%(a,t,tag(t,a,True)))
    return "struct{ "+"; ".join(fs)+" }"
def params():
    ps=[]; k=R.random()
    hasctx=R.random()<.35
    nargs=0
    if k<.55: ps.append(("a0",argstruct())); nargs=1
    elif k<.63:
        # two argument structs with different names
        n=R.sample(names,4)
        def st(l): return "struct{ "+"; ".join("%s %s"%(x,intype(1)) for x in l)+" }"
        ps.append(("a0",st(n[:2]))); ps.append(("a1",st(n[2:]))); nargs=2
    if hasctx: ps.insert(R.randrange(len(ps)+1),("ctx","*yarql.Ctx"))
    return ps,hasctx,nargs
def results(t, idable):
    """result list, index of value, of error"""
    kinds=["v"]
    if R.random()<.5: kinds.append("e")
    isid=False
    if idable and R.random()<.2:
        kinds.append("i"); isid=True
    R.shuffle(kinds)
    return kinds
def method(recv, n, t, sig=None):
    if sig is None:
        ps,hasctx,nargs=params()
        base=t
        while base.startswith("*"): base=base[1:]
        kinds=results(t, base in IDABLE)
        sig=(ps,hasctx,nargs,kinds)
    ps,hasctx,nargs,kinds=sig
    names_=", ".join("%s %s"%p for p in ps)
    res=", ".join({"v":t,"e":"error","i":"yarql.AttrIsID"}[k] for k in kinds)
    if len(kinds)>1: res="("+res+")"
    return sig,names_,res
def body(fn,t,sig,hid):
    ps,hasctx,nargs,kinds=sig
    args="".join(", a%d"%i for i in range(nargs))
    call='s.W.Call("%s", s.Uid, %s, %s%s)'%(fn,"ctx" if hasctx else "nil","true" if hasctx else "false",args)
    val="s."+hid
    if t=="string" and nargs: val='s.W.Echo(s.%s%s)'%(hid,args)
    rs=[]
    for k in kinds: rs.append({"v":val,"e":"err","i":"0"}[k])
    if "e" in kinds: return "err := %s\n\treturn %s"%(call,", ".join(rs))
    return "%s\n\treturn %s"%(call,", ".join(rs))
w('// Code generated by tools/genuni.py. DO NOT EDIT.\n\npackage uni\n\nimport (\n\t"mime/multipart"\n\t"reflect"\n\t"time"\n\n\t"github.com/mjarkk/yarql"\n)\n')
# interfaces
imeth={}
for i in range(4):
    ms=[]
    for n in R.sample(mnames,R.randrange(2,4)):
        t=outtype(1,0,True,True)
        sig,ns_,res=method("",n,t)
        ms.append((n+"I%d"%i,t,sig))
    imeth[i]=ms
    w("// I%d is an interface\ntype I%d interface {"%(i,i))
    for n,t,sig in ms:
        _,ns_,res=method("",n,t,sig)
        w("\tResolve%s(%s) %s"%(n,ns_,res))
    w("}\n")
for s in range(NS):
    sn="S%d"%s
    fs=[]; used=set()
    for n in R.sample(names,R.randrange(3,9)):
        t=outtype(0,s)
        fs.append("\t%s %s%s"%(n,t,tag(t,n)))
    # function fields
    for n in R.sample(["Call","Make","Get","Produce"],R.randrange(0,3)):
        t=outtype(1,s,True,True); ps,hc,na=params(); 
        base=t
        while base.startswith("*"): base=base[1:]
        kinds=results(t, base in IDABLE)
        res=", ".join({"v":t,"e":"error","i":"yarql.AttrIsID"}[k] for k in kinds)
        if len(kinds)>1: res="("+res+")"
        fs.append("\t%s func(%s) %s"%(n,", ".join(p[1] for p in ps),res))
    ms=[]
    for n in R.sample(mnames,R.randrange(1,5)):
        t=outtype(0,s,True,True)
        sig,_,_=method(sn,n,t)
        ms.append((n,t,sig))
    for i in range(4):
        if s in IMPL[i] or s in UNREG[i]: ms+=imeth[i]
    w("// %s is an object\ntype %s struct {\n\tW   *World `gq:\"-\"`\n\tUid int64  `gq:\"-\"`"%(sn,sn))
    R.shuffle(fs)
    for f in fs: w(f)
    for n,t,sig in ms: w("\tH%s %s `gq:\"-\"`"%(n,t))
    w("}\n")
    for n,t,sig in ms:
        _,ns_,res=method(sn,n,t,sig)
        w("// Resolve%s is a resolver\nfunc (s %s) Resolve%s(%s) %s {\n\t%s\n}\n"%(n,sn,n,ns_,res,body("%s.%s"%(sn,n),t,sig,"H"+n)))
w("// Structs lists the object types\nvar Structs = []reflect.Type{")
for s in range(NS): w("\treflect.TypeOf(S%d{}),"%s)
w("}\n")
w("// Ifaces lists the interfaces, with their registered and unregistered implementations\nvar Ifaces = []Iface{")
for i in range(4):
    w("\t{T: reflect.TypeOf((*I%d)(nil)).Elem(), Impl: []reflect.Type{%s}, Unreg: []reflect.Type{%s}},"%(i,", ".join("reflect.TypeOf(S%d{})"%s for s in IMPL[i]),", ".join("reflect.TypeOf(S%d{})"%s for s in UNREG[i])))
w("}\n")
w("func init() {")
for i in range(4):
    for s in IMPL[i]: w("\tyarql.Implements((*I%d)(nil), S%d{})"%(i,s))
w("}")
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"../harness/uni/gen.go")
open(p,"w").write("\n".join(out)+"\n")
subprocess.check_call(["gofmt","-w",p])
