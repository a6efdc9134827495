"""Contracts of the shared primitives, used in place of their bodies by the callers (each is proved in its own unit)."""
import z3, re
from sym import *
from exec import DeadPath
# ------------------------------------------------------------ msat/hrit/MSG_machine: big-endian accessors
ACC={'get_i1':(1,'i'),'get_i2':(2,'i'),'get_i4':(4,'i'),'get_i8':(8,'i'),'get_ui1':(1,'i'),'get_ui2':(2,'i'),'get_ui4':(4,'i'),'get_ui8':(8,'i'),'get_r4':(4,'f'),'get_r8':(8,'f')}
def be_term(vm,st,p,n):
    """the n bytes at p as a big-endian bit-vector (reads are checked)"""
    alts=vm.resolve(st,p)
    if len(alts)!=1: raise Unsupported('accessor on conditional pointer')
    q=alts[0][1]
    if not vm.chk(st,True,q,n,'read'): raise DeadPath()
    bs=[vm.read(st,q.obj,off_add(q.off,i),1) for i in range(n)]
    if all(isinstance(b,int) for b in bs):
        return int.from_bytes(bytes(b&255 for b in bs),'big')
    bs=[bv(b,8) for b in bs]
    return z3.Concat(*bs) if n>1 else bs[0]
def accessor(n,k):
    def c(vm,st,args,I):
        e=be_term(vm,st,args[0],n)
        if k=='f': return bits_fp(e,n)
        return e
    return c
def machine(vm,prog,but=()):
    """the accessors of MSG_machine by contract"""
    for nm,d in prog.dem.items():
        m=re.match(r'(get_u?[ir][1248])\(unsigned char const\*\)$',d)
        if m and m.group(1) in ACC and m.group(1) not in but: vm.contracts[nm]=accessor(*ACC[m.group(1)])
def unit_accessor(name):
    """body of the accessor satisfies its contract: for every buffer of exactly n bytes"""
    n,k=ACC[name]
    def fn(U):
        import build
        prog=U.prog([build.emit_ir('msat/hrit/MSG_machine.cpp')])
        fs=[f for f in prog.find(name+'(')]
        if not fs: U.notes.append('no function %s'%name); return
        vm=U.vm(prog); st=State(); b=vm.buf(st,'buf',n)
        outs=U.rets(vm,vm.call_fn(prog.funcs[fs[0]],[Ptr(b,0)],st),what=name)
        for o in outs:
            want=be_term(vm,o.st,Ptr(b,0),n)
            if U.equal(vm,o.st,fp_bits(o.val,n) if k=='f' else o.val,want,'%s returns the big-endian value of its %d bytes'%(name,n),8*n): U.ok(name+' returns the big-endian value')
    return fn
def unit_endianess(U):
    """the byte-order flag keeps the value of this (little-endian) machine"""
    import build
    prog=U.prog([build.emit_ir('msat/hrit/MSG_machine.cpp')])
    fs=prog.find('check_endianess(')
    if not fs: return
    vm=U.vm(prog); st=State(); outs=U.rets(vm,vm.call_fn(prog.funcs[fs[0]],[],st),what='check_endianess')
    isb=prog.find('is_big(')
    for o in outs:
        for q in U.rets(vm,vm.call_fn(prog.funcs[isb[0]],[],o.st),what='is_big'):
            vm.oblige(q.st,Not(q.val) if not isinstance(q.val,(bool,int)) else not q.val,'is_big() is false on a little-endian machine, before and after check_endianess()')
def fake_stream(vm,st,name='stream'):
    """an std::istream/ostream object: only its virtual-base offset is ever read by the code under verification"""
    vt=vm.new(st,'vtable',64,'global'); vm.write(st,vt,0,8,256)
    o=vm.new(st,name,1024,'heap','zero'); vm.write(st,o,0,8,Ptr(vt,24)); return Ptr(o,0)
def observer(vm,st,a,I):
    from sym import fresh,Unsupported
    if I is not None and I.ty.k=='int': return fresh('text',I.ty.w)
    raise Unsupported('characters of a text that only carries diagnostics')
def opaque_strings(vm,prog,but=None):
    """std::string construction is opaque (used where strings only carry diagnostics)"""
    rx=re.compile(r'^std::(__cxx11::)?(basic_string<char.*>::|to_string\(|basic_string<char.*> std::operator\+|operator\+|basic_stringstream|basic_ostringstream|allocator<char>|__new_allocator<char>)|^std::(__cxx11::)?basic_string<char.*> std::(__cxx11::)?(operator\+|to_string)|^(std::)?__new_allocator<char>|^std::(basic_)?[io]?o?stringstream')
    for nm,d in prog.dem.items():
        if rx.search(d) and not(but and re.search(but,d)):
            if re.search(r'::(compare|find|rfind|find_(first|last)(_not)?_of|size|length|empty|operator\[\]|at|front|back|begin|end)\([^)]*\)( const)?$',d):
                # observers: any answer (pointers into a text: not supported)
                vm.contracts.setdefault(nm,observer); continue
            vm.contracts.setdefault(nm,lambda vm_,st,a,I: a[0] if I is not None and I.ty.k=='ptr' and a else (0 if I is not None and I.ty.k=='int' else None))
    vm.assumptions.add('std::string operations that build diagnostics have no other effect')
