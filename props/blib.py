from lib import *
LAYOUT = 1
TYPES = dict(NONE=0, INT_8=0x100, UINT_8=0x110, INT_16=0x120, UINT_16=0x130, INT_32=0x140, UINT_32=0x150, INT_64=0x160, UINT_64=0x170, FLOAT_16=0x180, FLOAT_32=0x190, FLOAT_64=0x1a0)
INTS = {'NONE': (32, True), 'INT_8': (8, True), 'UINT_8': (8, False), 'INT_16': (16, True), 'UINT_16': (16, False), 'INT_32': (32, True), 'UINT_32': (32, False), 'INT_64': (64, True), 'UINT_64': (64, False)}
def source(ex, st, limit=1 << 31):
    n = z3.BitVec('n', 64); st.assume(z3.ULT(n, limit - 64))
    src = ex.sym_bytes(st, 'data', n); pos = z3.BitVec('pos', 32); p64 = z3.SignExt(32, pos)
    st.assume(z3.And(pos >= 0, z3.ULE(p64, n))); S = ex.bytes_at(st, Ptr(src, 0)); end = Ptr(ex.new_obj(st, 'end', 4, 'out'), 0); ex.wr(st, end, 4, pos); ex.hints = [('n', n)]
    return n, Ptr(src, 0), pos, p64, S, end
def le(S, p, k):
    "k bytes at p, least significant first"
    v = bv(S(p), 8)
    return simp(z3.Concat(*[bv(S(p + j), 8) for j in reversed(range(k))])) if k > 1 else v
def ext(v, signed, w=64): return v if v.size() == w else (z3.SignExt if signed else z3.ZeroExt)(w - v.size(), v)
def output(ex, st):
    out = Ptr(ex.new_obj(st, 'out', 8, 'ghost'), 0); P, L0 = ex.G.init_prophecy(ex, st, out, 'out')
    return out, (lambda i: z3.Select(P, i)), L0
def endpos(ex, s, end): return z3.SignExt(32, bv(ex.rd(s, end, 4, 'i32'), 32))
def thrown(ex, s):
    t = s.result
    return (ex.exc_types.get(t.obj) if getattr(t, 'obj', None) else t.ty) or ''
