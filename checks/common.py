import sys, os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'engine'))
import driver, build, layout, random, struct
from driver import Check, main, bigstack
VERIF=build.VERIF; REPO=build.REPO
def H(f): return os.path.join(VERIF,'harness',f)
def selects(e,arr,acc=None,seen=None):
    """constant indexes of `arr` occurring in term e"""
    import z3
    acc=set() if acc is None else acc; seen=set()
    st=[e]
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_select(x) and x.arg(0).eq(arr) and z3.is_bv_value(x.arg(1)): acc.add(x.arg(1).as_long())
        st.extend(x.children())
    return acc
def model_bytes(ev,o,arr,n,rnd,default=None):
    """bytes of an input buffer from a counter-model: constrained positions from the model, the rest random"""
    b=bytearray(rnd.randbytes(n)) if default is None else bytearray(default)
    ix=selects(o.goal,arr)
    for p in o.pc: ix|=selects(p,arr)
    import z3
    for i in ix:
        if i<n: b[i]=ev(z3.Select(arr,z3.BitVecVal(i,64))).as_long()
    return bytes(b)
