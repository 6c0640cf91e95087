from lib import *
from jsonspec import *
HARNESS = 'j01.cpp'; NATIVE = 'j01.cpp'
def h_write(m):
    """requires: text of any length below 2^31-64, any earlier output; ensures: the output grows by one string literal whose RFC 8259 denotation is the text; invariant: DEC(L, LIST(i)) = DEC(start)"""
    ex, st, sp = setup(m)
    n = z3.BitVec('n', 64); st.assume(z3.ULT(n, (1 << 31) - 64))
    txt = ex.sym_bytes(st, 'text', n); out = ex.new_obj(st, 'out', 8, 'ghost')
    P, L0 = ex.G.init_prophecy(ex, st, Ptr(out, 0), 'out')
    V = ex.bytes_at(st, Ptr(txt, 0))
    DEC = decoder(sp, 'DEC', lambda i: z3.Select(P, i)); LIST = prefix(sp, 'LIST', V)
    D0 = DEC(L0 + 1, nil)
    ex.hints = [('n', n)]
    def cands(ex, entry, v0, ints, keys):
        out_ = []
        for k, G, w, p in ints:
            for d in (0,):
                out_.append((f'DEC(L,LIST({k[:3]}))=D0', lambda vw, G=G: DEC(ex.G.L(vw.st, Ptr(out, 0)), LIST(b64(G(vw)))) == D0))
        return out_
    ex.cand_hooks.append(cands)
    ex.push(st, m.fns['h_write'], [Ptr(out, 0), Ptr(txt, 0), n], None)
    for k, s in ex.run(st):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'writing a string does not throw'); continue
        cover(ex, s, 'string written')
        L = ex.G.L(s, Ptr(out, 0))
        ex.oblige(s, z3.And(z3.Select(P, L0) == b8('"'), D0 == Res.ok(LIST(n), L)), 'output is a JSON string literal denoting the text')
    need_covers(ex, 'string written')
    return ex
def h_read(m):
    """requires: any bytes, position at a quote; ensures: if the bytes from there are a valid literal, its denotation is returned, position is right behind it and nothing is thrown; safety and termination on all bytes"""
    ex, st, sp = setup(m)
    n = z3.BitVec('n', 64); st.assume(z3.ULT(n, (1 << 31) - 64))
    src = ex.sym_bytes(st, 'json', n); pos = z3.BitVec('pos', 32)
    st.assume(z3.And(pos >= 0, z3.ULT(z3.SignExt(32, pos), n)))
    S = ex.bytes_at(st, Ptr(src, 0))
    st.assume(S(z3.SignExt(32, pos)) == b8('"'))
    DEC = decoder(sp, 'DEC', S, n)
    D0 = DEC(z3.SignExt(32, pos) + 1, nil)
    end = ex.new_obj(st, 'end', 4, 'out'); buf = ex.new_obj(st, 'buf', 8, 'out')
    ex.hints = [('n', n)]
    gs = []
    def new_gstr(st_, p): # the reader may have read anything before
        gs.append(p); st_.ghost[ex.G.key(p, 'B')] = z3.Const(fresh_name('read_before'), nil.sort())
    ex.new_gstr = new_gstr
    def cands(ex, entry, v0, ints, keys):
        out_ = []
        B = lambda vw: ex.G.B(vw.st, gs[-1])
        chars = [(k, G) for k, G, w, p in ints if w == 8]; poss = [(k, G) for k, G, w, p in ints if w >= 32]
        for k, G in poss:
            for d in (0, 1, 2):
                out_.append((f'DEC({k[:3]}-{d},buf)=D0', lambda vw, G=G, d=d: z3.Implies(D0 != Res.bad, DEC(b64(SUB(G(vw), d)), B(vw)) == D0)))
        for k, G in poss:
            for c, Gc in chars:
                for d in (0, 1):
                    out_.append((f'{c[:3]}=S[{k[:3]}-{d}]', lambda vw, G=G, Gc=Gc, d=d, c=c: z3.And(z3.ULT(b64(SUB(G(vw), d)), n), bv(vw.get(c), 8) == S(SUB(G(vw), d)))))
                    out_.append((f'{c[:3]}=S[{k[:3]}-{d}] or 0', lambda vw, G=G, Gc=Gc, d=d, c=c: bv(vw.get(c), 8) == z3.If(z3.ULT(b64(SUB(G(vw), d)), n), S(SUB(G(vw), d)), b8(0))))
        return out_
    ex.cand_hooks.append(cands)
    ex.push(st, m.fns['h_read'], [Ptr(src, 0), n, pos, Ptr(end, 0), Ptr(buf, 0)], None)
    for k, s in ex.run(st):
        if isinstance(s.result, Throw): ex.oblige(s, D0 == Res.bad, 'a valid literal is not rejected'); continue
        cover(ex, s, 'string read')
        e = ex.rd(s, Ptr(end, 0), 4, 'i32')
        ex.oblige(s, z3.Implies(D0 != Res.bad, D0 == Res.ok(ex.G.B(s, gs[-1]), b64(ex.sx(s, e, 32)))), 'reader returns the text the literal denotes and stops behind it')
    need_covers(ex, 'string read')
    return ex
PROOFS = [h_write, h_read]
