"""Common set-up of a proof."""
import os, re
from spec import *
from stdstr import string_contracts, str_set, str_get, span_node
from ghoststr import GhostStrings
import ctx
class Front:
    'contracts added by a proof take precedence'
    def __init__(self, C): self.C = C
    def on(self, rx):
        def d(f): self.C.insert(0, (re.compile(rx), f, getattr(f, '__doc__', None) or rx)); return f
        return d
def setup(m, mode=PROOF, depth=1, **cfg):
    C = std_contracts(); G = GhostStrings(); G.contracts(C); string_contracts(C); libc_contracts(C)
    ex = Executor(m, C, dict(debug=bool(os.environ.get('VDEBUG')), debug_cands=bool(os.environ.get('VDC')), time_limit=ctx.LIMIT, **cfg))
    ex.mode = mode; ex.G = G; ex.covers = {}
    sp = Spec(depth); ex.spec = sp; ex.spec_axioms = sp.axioms
    ex.contracts_front = Front(C)
    st = State()
    return ex, st, sp
def verif_contracts(C):
    @C.on(r'^v_assert$')
    def va(ex, st, a, I):
        "v_assert: proof obligation stated in the harness"
        ex.oblige(st, zb(a[0]) if not isinstance(a[0], int) else bool(a[0]), (cstr(ex, st, a[1]) or b'assertion').decode())
        return None
    @C.on(r'^v_assume$')
    def vas(ex, st, a, I):
        "v_assume: precondition stated in the harness"
        st.assume(zb(a[0])); return None
    @C.on(r'^v_nondet_')
    def vn(ex, st, a, I):
        "v_nondet: arbitrary value"
        return z3.Bool(fresh_name('nd')) if I['t'] == 'i1' else z3.BitVec(fresh_name('nd'), tw(I['t']))
    @C.on(r'^v_cover$')
    def vc_(ex, st, a, I):
        "v_cover: reachability witness"
        cover(ex, st, (cstr(ex, st, a[0]) or b'?').decode()); return None
def libc_contracts(C):
    verif_contracts(C)
    @C.on(r'^memchr$|^std::char_traits<char>::find\(char const\*, unsigned long, char const&\)$')
    def mch(ex, st, a, I):
        "memchr/char_traits::find returns the first occurrence or null"
        p = a[0]
        c, n = (a[1], a[2]) if len(a) == 3 and not isinstance(a[2], Ptr) else (ex.rd(st, a[2], 1, 'i8'), a[1])
        c = norm(z3.Extract(7, 0, bv(c, 32))) if isz(c) and c.size() > 8 else (c & 255 if isinstance(c, int) else c)
        n = norm(n)
        if isinstance(n, int) and n == 0: return NULL
        if p.obj is None:
            return NULL if ex.ub(st, EQ(n, 0), 'null range is empty') else [(None, None)]
        o = ex.objs[p.obj]
        if not ex.ub(st, AND(ULE(p.off, o.size), ULE(n, SUB(o.size, p.off))), f'memchr in bounds of {o.name}'): return [(None, None)]
        F = find_fn(ex, st, p.obj, c, ADD(p.off, n)); f = F(b64(p.off))
        nd = st.mem[p.obj].base
        s2 = st.copy()
        st.assume(AND(z3.UGE(f, b64(p.off)), ULT(f, ADD(p.off, n)), zb(bv(read8(nd, f), 8) == bv(c, 8))))
        s2.assume(EQ(f, ADD(p.off, n)))
        out = []
        for s, v in ((st, Ptr(p.obj, f)), (s2, NULL)):
            r, m = ex.inc_check(s.pc, z3.BoolVal(True))
            if r != 'unsat': s.model = m; out.append((s, v))
        return out or [(None, None)]
    @C.on(r'^(memcmp|bcmp)$')
    def mcmp(ex, st, a, I):
        "memcmp compares bytes"
        n = norm(a[2])
        if isinstance(n, int) and n == 0: return 0
        for p in (a[0], a[1]):
            if not (ex.inbounds(st, p, n, 'memcmp')): return [(None, None)]
        ra, rb = ex.bytes_at(st, a[0]), ex.bytes_at(st, a[1])
        if isinstance(n, int) and n <= 64:
            r = z3.BitVecVal(0, 32)
            for j in reversed(range(n)):
                x, y = bv(ra(j), 8), bv(rb(j), 8)
                if x.eq(y): continue
                r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(0xffffffff, 32), z3.BitVecVal(1, 32)))
            return simp(r)
        r, mo = ex.inc_check(st.pc, z3.BoolVal(True)) # the length may follow from what was compared before
        if mo is not None:
            v = mo.eval(n, True).as_long()
            if v <= 64 and ex.inc_check(st.pc, n != v)[0] == 'unsat':
                a = list(a); a[2] = v; return mcmp(ex, st, a, I)
        # symbolic length: equal iff no difference; expose the least difference
        s2 = st.copy(); k = z3.BitVec(fresh_name('diff'), 64)
        st.assume(AND(ULT(k, n), zb(bv(ra(k), 8) != bv(rb(k), 8))))
        v = z3.If(z3.ULT(bv(ra(k), 8), bv(rb(k), 8)), z3.BitVecVal(0xffffffff, 32), z3.BitVecVal(1, 32))
        EQU = equal_fn(ex); s2.assume(EQU(ex, s2, a[0], a[1], n))
        return [(st, v), (s2, 0)]
    return C
def find_fn(ex, st, obj, c, hi):
    """FIND(lo): first index >= lo (and < hi) holding byte c, else hi"""
    m = ex.flush(st, obj); nd = m.base
    if nd is None: nd = node_array(fresh_name('uninit')); st.mem[obj] = Mem({}, nd)
    key = (id(nd), c if isinstance(c, int) else c.get_id(), hi if isinstance(hi, int) else hi.get_id())
    reg = ex.__dict__.setdefault('_nf', {})
    if key not in reg:
        F = [None]; cc = bv(c, 8); H = b64(hi)
        F[0] = ex.spec.define(fresh_name('find'), [W64], W64, lambda lo: z3.If(z3.UGE(lo, H), H, z3.If(bv(read8(nd, lo), 8) == cc, lo, F[0](lo + 1))))
        reg[key] = (F[0], nd, c, hi)
    return reg[key][0]
def equal_fn(ex):
    def f(ex, st, p, q, n):
        ra, rb = ex.bytes_at(st, p), ex.bytes_at(st, q)
        i = z3.BitVec(fresh_name('eqi'), 64)
        return z3.ForAll([i], z3.Implies(z3.ULT(i, b64(n)), bv(ra(i), 8) == bv(rb(i), 8)))
    return f
def span(ex, st, name, limit=1 << 31, ro=True):
    """arbitrary bytes of arbitrary length below limit"""
    n = z3.BitVec('n_' + name, 64); st.assume(z3.ULT(n, limit))
    o = ex.sym_bytes(st, name, n, ro=ro)
    ex.hints.append(('n_' + name, n))
    return Ptr(o, 0), n, ex.bytes_at(st, Ptr(o, 0))
def cover(ex, st, name):
    """a reachability witness: the assumptions of the proof are not contradictory at this point"""
    if ex.covers.get(name): return
    r, m = ex.inc_check(st.pc, z3.BoolVal(True))
    ex.covers[name] = (r == 'sat') or ex.covers.get(name, False)
def need_covers(ex, *names):
    for n in names:
        o = Obligation('reachable (not vacuous): ' + n, [], z3.BoolVal(True), '', 'cover', ())
        o.status = 'discharged' if ex.covers.get(n) else 'undecided'; o.backend = 'z3'
        ex.obls.append(o)
def call(ex, st, fn, args):
    """run a harness function from a state; yields the final states"""
    if fn not in ex.m.fns: raise Unsupported('harness function missing: ' + fn)
    ex.push(st, ex.m.fns[fn], args, None)
    return [s for k, s in ex.run(st)]
