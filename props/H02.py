from hlib import *
HARNESS = 'http.cpp'; NATIVE = 'h02.cpp'
def parse(m):
    """request headers from any bytes: no access outside of the input; terminates; OK only behind a line end, within the input, with a body size that is absent or representable; the first line and every header are handed over inside the input"""
    ex, st, sp = setup(m); from_chars_int(ex); n = z3.BitVec('n', 64); st.assume(z3.ULT(n, 1 << 30)); ex.hints = [('n', n)]
    o = ex.sym_bytes(st, 'input', n, ro=False); src = Ptr(o, 0); outs = [Ptr(ex.new_obj(st, x, k, 'out'), 0) for x, k in (('position', 8), ('bodyAt', 4), ('bodySize', 4))]
    for p, k in zip(outs, (8, 4, 4)): ex.wr(st, p, k, 0)
    def cands(ex, entry, v0, ints, keys):
        return [(f'{k[:3]} body size', lambda vw, G=G: z3.And(b64(G(vw)) >= -1, b64(G(vw)) <= 0x3fffffff)) for k, G, w, pp in ints if w == 32]
    ex.cand_hooks = [cands]
    @ex.contracts_front.on(r'^v_firstLine$')
    def fl(ex, s, a, I):
        "first line: any decision"
        ex.oblige(s, z3.And(a[0].obj == o, b64(a[0].off) == 0, z3.ULE(b64(a[1]), n)), 'the first line lies inside the input'); return z3.Bool(fresh_name('accepted'))
    @ex.contracts_front.on(r'^v_header$')
    def hd(ex, s, a, I):
        "header: no effect on the parser"
        for p, k in ((a[0], a[1]), (a[2], a[3])): ex.oblige(s, z3.And(p.obj == o, z3.ULE(b64(p.off), n), z3.ULE(b64(k), n - b64(p.off))), 'name and value lie inside the input')
        return None
    for s in call(ex, st, 'h_parse', [src, n] + outs):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
        cover(ex, s, 'ends'); r = bv(s.result, 32); at = z3.SignExt(32, bv(ex.rd(s, outs[1], 4, 'i32'), 32)); R = ex.bytes_at(s, src); bs = bv(ex.rd(s, outs[2], 4, 'i32'), 32)
        ex.oblige(s, z3.Or(r == OK, r == READ_ON, r == DISCONNECT), 'a reaction of the parser')
        ex.oblige(s, z3.Implies(r == OK, z3.And(at >= 4, at <= n, R(at - 1) == b8('\n'), R(at - 2) == b8('\r'), bv(ex.rd(s, outs[0], 8, 'i64'), 64) == at)), 'the body starts behind a line end inside the input')
        ex.oblige(s, z3.Implies(r == OK, z3.And(bs >= -1, bs <= 0x3fffffff)), 'the body size is representable')
    need_covers(ex, 'ends'); return ex
PROOFS = [parse]
def session(m):
    """a whole session step on any bytes: no access outside of the input; terminates; throws nothing; the answer is one call of the responder at most, with path, content type and body inside the input; what is consumed lies inside the input; nothing is answered when more input is asked for"""
    ex, st, sp = setup(m); from_chars_int(ex); n = z3.BitVec('n', 64); st.assume(z3.ULT(n, 1 << 30)); ex.hints = [('n', n)]
    o = ex.sym_bytes(st, 'input', n, ro=False); src = Ptr(o, 0); out = Ptr(ex.new_obj(st, 'consumed', 8, 'out'), 0); ex.wr(st, out, 8, 0)
    def inside(s, p, k, what): ex.oblige(s, z3.Or(b64(k) == 0, z3.And(p.obj == o, z3.ULE(b64(p.off), n), z3.ULE(b64(k), n - b64(p.off)))) if p.obj == o else b64(k) == 0, what)
    @ex.contracts_front.on(r'^v_get$')
    def get(ex, s, a, I):
        "any responder to GET: any answer, or an exception"
        inside(s, a[0], a[1], 'the path lies inside the input'); s.ghost['calls'] = s.ghost['calls'] + 1; s2 = s.copy(); return [(s, z3.Bool(fresh_name('found'))), (s2, Throw('_ZTISt13runtime_error'))]
    @ex.contracts_front.on(r'^v_post$')
    def post(ex, s, a, I):
        "any responder to POST: any answer, or an exception"
        for i, w in ((0, 'path'), (2, 'content type'), (4, 'body')): inside(s, a[i], a[i + 1], f'the {w} lies inside the input')
        s.ghost['calls'] = s.ghost['calls'] + 1; s2 = s.copy(); return [(s, z3.Bool(fresh_name('done'))), (s2, Throw('_ZTISt13runtime_error'))]
    @ex.contracts_front.on(r'^v_out$')
    def vo(ex, s, a, I):
        "sending"
        s.ghost['sent'] = s.ghost['sent'] + 1; ex.inbounds(s, a[0], norm(a[1]), 'what is sent'); return None
    def cands(ex, entry, v0, ints, keys):
        c = []; c32 = [(k, G) for k, G, w, pp in ints if w == 32]
        for k, G in c32:
            c += [(f'{k[:3]} body size', lambda vw, G=G: z3.And(b64(G(vw)) >= -1, b64(G(vw)) <= 0x3fffffff)), (f'{k[:3]} reaction', lambda vw, G=G: z3.Or(b64(G(vw)) == OK, b64(G(vw)) == DISCONNECT))]
            for l, H in c32:
                if l is not k: c.append((f'{k[:3]} {l[:3]} a range inside', lambda vw, G=G, H=H: z3.And(b64(G(vw)) >= 0, b64(H(vw)) >= 0, b64(G(vw)) + b64(H(vw)) <= n)))
        return c
    ex.cand_hooks = [cands]; st.ghost.update(calls=b8(0), sent=b8(0))
    for s in call(ex, st, 'h_respond', [src, n, out]):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
        r = bv(s.result, 32); used = bv(ex.rd(s, out, 8, 'i64'), 64); g = s.ghost; cover(ex, s, 'ends')
        ex.oblige(s, z3.Or(r == OK, r == READ_ON, r == DISCONNECT), 'a reaction of the session'); ex.oblige(s, z3.And(z3.ULE(g['calls'], 1), z3.ULE(g['sent'], 1)), 'at most one call and one answer')
        ex.oblige(s, z3.Implies(r == OK, z3.And(used >= 4, used <= n, g['sent'] == 1)), 'what is consumed lies inside the input, and is answered'); ex.oblige(s, z3.Implies(r == READ_ON, z3.And(g['calls'] == 0, g['sent'] == 0)), 'nothing is answered when more input is asked for')
        ex.oblige(s, z3.Implies(z3.And(r == DISCONNECT, used == 0), z3.And(g['calls'] == 0, g['sent'] == 0)), 'nothing is answered to a broken request')
    need_covers(ex, 'ends'); return ex
PROOFS = [parse, session]
