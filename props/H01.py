from hserver import *
HARNESS = 'http.cpp'; NATIVE = 'h01.cpp'
def headers(m):
    """request headers, any bytes: the first line and then every header line but the content length are handed over, in order, each exactly once, with the name in lower case and the value without the blanks and colons before it; the content length is read from its own line; OK exactly behind the blank line; more input is asked for exactly if the header is not complete"""
    ex, st, sp = setup(m, generic=False, inv_timeout=3000); n, k = z3.BitVecs('n k', 64); st.assume(z3.ULT(n, 1 << 30)); ex.hints = [('n', n)]
    o = ex.sym_bytes(st, 'input', n, ro=False); src = Ptr(o, 0); outs = [Ptr(ex.new_obj(st, x, w, 'out'), 0) for x, w in (('position', 8), ('bodyAt', 4), ('bodySize', 4))]
    for p, w in zip(outs, (8, 4, 4)): ex.wr(st, p, w, 0)
    T0 = ex.bytes_at(st, src); T = lambda i: bv(T0(i), 8)
    A = scanto(sp, 'NAME', T, n, lambda c: z3.Not(blank(c))); B = scanto(sp, 'NAME_END', T, n, lambda c: z3.Or(blank(c), c == b8(':'))); C = scanto(sp, 'VALUE', T, n, lambda c: z3.Not(z3.Or(blank(c), c == b8(':')))); D = scanto(sp, 'LINE_END', T, n, lambda c: c == b8('\r'))
    F = [None]; F[0] = COL = sp.define('COLON', [W64], z3.BoolSort(), lambda p: z3.And(z3.ULT(p, n), z3.Or(T(p) == b8(':'), z3.And(blank(T(p)), F[0](p + 1)))))
    b_ = lambda g: A(g['line']); 
    def parts(g): a = A(g['line']); b = B(a); c = C(b); return a, b, c, D(c)
    ghost = dict(line=b64(0), first=b8(0), accepted=b8(0), length=z3.BitVecVal(-1, 32))
    @ex.contracts_front.on(r'^v_firstLine$')
    def fl(ex, s, a, I):
        "first line: any decision"
        g = s.ghost; ex.oblige(s, z3.And(g['first'] == 0, a[0].obj == o, b64(a[0].off) == 0, b64(a[1]) == D(b64(0))), 'the first line is all up to the line end, handed over once')
        r = z3.Bool(fresh_name('accepted')); g['first'] = b8(1); g['accepted'] = z3.If(r, b8(1), b8(0)); g['line'] = D(b64(0)) + 2; return r
    def islength(g): a, b, c, d = parts(g); return z3.And(b - a == 14, *[low(T(a + j)) == b8(x) for j, x in enumerate('content-length')])
    @ex.contracts_front.on(r'^v_header$')
    def hd(ex, s, x, I):
        "header: no effect on the parser"
        g = s.ghost; a, b, c, d = parts(g); R = ex.bytes_at(s, src)
        ex.oblige(s, z3.And(g['first'] == 1, g['accepted'] == 1, x[0].obj == o, x[2].obj == o, b64(x[0].off) == a, b64(x[1]) == b - a), 'the name is handed over')
        ex.oblige(s, z3.And(b64(x[2].off) == c, b64(x[3]) == d - c, z3.SignExt(32, bv(x[4], 32)) == c, z3.SignExt(32, bv(x[5], 32)) == d - c, z3.ULT(d, n)), 'the value and its place are handed over')
        ex.oblige(s, COL(b), 'there is a colon'); ex.oblige(s, z3.Not(islength(g)), 'the content length is not handed over')
        ex.oblige(s, z3.Implies(z3.And(z3.ULE(a, k), z3.ULT(k, b)), bv(R(k), 8) == low(T(k))), 'the name is in lower case'); ex.oblige(s, z3.Implies(z3.And(z3.ULE(c, k), z3.ULT(k, d)), bv(R(k), 8) == T(k)), 'the value is unchanged')
        g['line'] = d + 2; return None
    def length(s, first, last, v):
        g = s.ghost; a, b, c, d = parts(g); ex.oblige(s, z3.And(g['accepted'] == 1, islength(g), COL(b)), 'only the content length is read as a number'); ex.oblige(s, z3.And(first.obj == o, b64(first.off) == c, b64(last.off) == d, z3.ULT(d, n)), 'all of its value is read')
        g['line'] = d + 2; g['length'] = v
    from_chars_int(ex, length)
    def cands(ex, entry, v0, ints, keys):
        G0 = lambda vw: vw.st.ghost; R = lambda vw: ex.bytes_at(vw.st, src); o_ = src.obj
        o = [('accepted', lambda vw: z3.And(G0(vw)['first'] == 1, G0(vw)['accepted'] == 1)), ('line<=n+1', lambda vw: z3.ULE(G0(vw)['line'], n + 1)),  ('a line', lambda vw: z3.And(G0(vw)['line'] != 0, T(D(b64(0)) + 1) == b8('\n'), z3.ULT(D(b64(0)) + 1, n))), ('not yet', lambda vw: z3.And(G0(vw)['first'] == 0, G0(vw)['accepted'] == 0))]
        E = ex.bytes_at(entry, src)
        for key, G, w, isp in ints:
            if isp: continue
            g = lambda vw, G=G: b64(G(vw)); x = key[:3]
            if w <= 8: o.append((f'{x} flag', lambda vw, G=G: z3.ULE(bv(G(vw), 64), 1)))
            if w == 32:
                o += [(f'{x} in range', lambda vw, g=g: z3.And(g(vw) >= 0, g(vw) <= n)), (f'{x} inside', lambda vw, g=g: g(vw) < n), (f'{x}=line', lambda vw, g=g: g(vw) == G0(vw)['line']), (f'{x}=length', lambda vw, g=g: g(vw) == z3.SignExt(32, G0(vw)['length'])),
                      (f'{x} representable', lambda vw, g=g: z3.And(g(vw) >= -1, g(vw) <= 0x3fffffff)), (f'{x}: line end', lambda vw, g=g: D(g(vw)) == D(b64(0))),
                      (f'{x}: name', lambda vw, g=g: A(g(vw)) == parts(G0(vw))[0]), (f'{x}: name end', lambda vw, g=g: z3.And(B(g(vw)) == parts(G0(vw))[1], z3.ULE(parts(G0(vw))[0], g(vw)))), (f'{x}: value', lambda vw, g=g: z3.And(C(g(vw)) == parts(G0(vw))[2], z3.ULE(parts(G0(vw))[1], g(vw)))), (f'{x}: value end', lambda vw, g=g: z3.And(D(g(vw)) == parts(G0(vw))[3], z3.ULE(parts(G0(vw))[2], g(vw)))),
                      (f'{x}: >=line', lambda vw, g=g: z3.ULE(G0(vw)['line'], g(vw))), shape(ex, f'{x}: lower case in the name', o_, lambda vw, i: z3.BoolVal(True), lambda vw, i, g=g: z3.If(z3.And(z3.ULE(parts(G0(vw))[0], i), z3.ULT(i, g(vw))), low(bv(E(i), 8)), bv(E(i), 8))), shape(ex, f'{x}: unchanged behind', o_, lambda vw, i, g=g: z3.UGE(i, g(vw)), lambda vw, i: T(i))]
                for key2, H, w2, isp2 in ints:
                    if w2 <= 8: o.append((f'{x}{key2[:3]}: colon', lambda vw, g=g, H=H: COL(parts(G0(vw))[1]) == z3.Or(norm8(H(vw)) != 0, COL(g(vw)))))
        return o
    norm8 = lambda v: bv(v, 64)
    ex.cand_hooks = [cands]; st.ghost.update(ghost)
    for s in call(ex, st, 'h_parse', [src, n] + outs):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
        cover(ex, s, 'ends'); g = s.ghost; r = bv(s.result, 32); at = z3.SignExt(32, bv(ex.rd(s, outs[1], 4, 'i32'), 32)); bs = bv(ex.rd(s, outs[2], 4, 'i32'), 32); L = g['line']; a, b, c, d = parts(g); d0 = D(b64(0))
        blankline = T(L) == b8('\r')
        ex.oblige(s, z3.Implies(r == OK, z3.And(g['accepted'] == 1, at == L + 2, z3.ULE(at, n), blankline, T(L + 1) == b8('\n'), bs == g['length'])), 'OK: exactly behind the blank line, with the length of the body')
        ex.oblige(s, z3.Implies(r == READ_ON, z3.If(g['first'] == 0, d0 == n, z3.Or(z3.UGE(d0 + 1, n), z3.UGE(L, n), z3.If(blankline, z3.UGE(L + 1, n), z3.Or(d == n, z3.UGE(d + 2, n)))))), 'more input is asked for only if the header is not complete')
        ex.oblige(s, z3.Implies(r == DISCONNECT, z3.And(g['first'] == 1, z3.Or(g['accepted'] == 0, T(d0 + 1) != b8('\n'), z3.If(blankline, T(L + 1) != b8('\n'), z3.And(z3.ULT(c, n), z3.Not(COL(b)))), g['length'] < 0, g['length'] > 0x3fffffff))), 'refused only for a refused first line, a wrong line end, a missing colon or an impossible length')
    need_covers(ex, 'ends'); return ex
def dispatch(m):
    """a session in any state an answered request leaves behind, any header (parse under its contract), the body in one piece or two: the responder of the method is called for a complete request only, exactly once, with the path of the first line, the content type of this request and the body the content length says; exactly the request is consumed; the connection is kept unless the request asks to close it; a broken header is refused, more is waited for otherwise"""
    return step(m, 'dispatch')
def kept(m):
    """request headers, any bytes: what was handed over as first line or value, and everything from the place where the body starts, is never changed by reading what follows; names are handed over from behind that"""
    ex, st, sp = setup(m, generic=False, inv_timeout=3000); from_chars_int(ex); n, k = z3.BitVecs('n k', 64); st.assume(z3.ULT(n, 1 << 30)); ex.hints = [('n', n)]
    o = ex.sym_bytes(st, 'input', n, ro=False); src = Ptr(o, 0); outs = [Ptr(ex.new_obj(st, x, w, 'out'), 0) for x, w in (('position', 8), ('bodyAt', 4), ('bodySize', 4))]
    for p, w in zip(outs, (8, 4, 4)): ex.wr(st, p, w, 0)
    T0 = ex.bytes_at(st, src); T = lambda i: bv(T0(i), 8)
    def pin(s, p, size): s.ghost['pinned'] = z3.If(z3.And(z3.ULE(p, k), z3.ULT(k, p + size)), b8(1), s.ghost['pinned']); s.ghost['end'] = p + size
    @ex.contracts_front.on(r'^v_firstLine$')
    def fl(ex, s, a, I):
        "first line: any decision"
        pin(s, b64(a[0].off), b64(a[1])); return z3.Bool(fresh_name('accepted'))
    @ex.contracts_front.on(r'^v_header$')
    def hd(ex, s, a, I):
        "header: no effect on the parser"
        ex.oblige(s, z3.UGE(b64(a[0].off), s.ghost['end']), 'a name stands behind what was handed over before'); pin(s, b64(a[2].off), b64(a[3])); return None
    ex.check_termination = False   # proved in H02
    def cands(ex, entry, v0, ints, keys):
        g = lambda vw: vw.st.ghost; out = [('pinned', lambda vw: z3.And(z3.ULE(g(vw)['pinned'], 1), z3.ULE(g(vw)['end'], n), z3.Implies(g(vw)['pinned'] == 1, z3.ULT(k, g(vw)['end'])))), shape(ex, 'pinned unchanged', o, lambda vw, i: z3.And(g(vw)['pinned'] == 1, i == k), lambda vw, i: T(i))]
        for key, G, w, isp in ints:
            if isp or w != 32: continue
            h = lambda vw, G=G: b64(G(vw)); h0 = b64(G(v0)); x = key[:3]
            out += [(f'{x} inside', lambda vw, h=h: z3.And(h(vw) >= 0, h(vw) <= n)), (f'{x} <n', lambda vw, h=h: z3.And(h(vw) >= 0, h(vw) < n)), (f'{x} <=n+1', lambda vw, h=h: z3.And(h(vw) >= 0, h(vw) <= n + 1)), (f'{x} from the start', lambda vw, h=h, h0=h0: h(vw) >= h0), (f'{x} behind', lambda vw, h=h: z3.ULE(g(vw)['end'], h(vw))), shape(ex, f'{x}: unchanged from there', o, lambda vw, i, h=h: z3.UGE(i, h(vw)), lambda vw, i: T(i))]
        return out
    ex.cand_hooks = [cands]; st.ghost.update(pinned=b8(0), end=b64(0))
    for s in call(ex, st, 'h_parse', [src, n] + outs):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
        cover(ex, s, 'ends'); R = ex.bytes_at(s, src); at = z3.SignExt(32, bv(ex.rd(s, outs[1], 4, 'i32'), 32))
        ex.oblige(s, z3.Implies(z3.And(s.ghost['pinned'] == 1, bv(s.result, 32) == OK), bv(R(k), 8) == T(k)), 'the first line and the values stay as they are'); ex.oblige(s, z3.Implies(z3.And(bv(s.result, 32) == OK, z3.ULE(at, k), z3.ULT(k, n)), bv(R(k), 8) == T(k)), 'the body stays as it is')
    need_covers(ex, 'ends'); return ex
PROOFS = [headers, kept, dispatch]
