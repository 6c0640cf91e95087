from hlib import *
from stdvec import vector_contracts
HARNESS = 'tcp.cpp'; NATIVE = 't02.cpp'
SIZE = 3072 # of the fixed buffer
def categories(ex):
    @ex.contracts_front.on(r'std::_V2::system_category|std::system_category')
    def sc(ex, s, a, I):
        "error categories are objects"
        return Ptr(ex.new_obj(s, 'category', 8, 'arg'), 0)
def kept(large):
    def proof(m):
        ex, st, sp = setup(m, merge_limit=0); vector_contracts(ex.contracts); s0 = 65536
        categories(ex); B = Ptr(ex.new_obj(st, 'buffer', s0, 'arg'), 0); ks, ke, sp_, ln = z3.BitVecs('start end space length', 32); VS, k = z3.BitVecs('vector_size any_index', 64); x = lambda v: z3.SignExt(32, bv(v, 32))
        (s,) = call(ex, st, 'h_size', []); real = norm(s.result); ex.objs[B.obj].size = real; st = s; st.result = None
        (st,) = call(ex, st, 'h_new', [B]); st.result = None
        C = ex.sym_bytes(st, 'contents', SIZE); L = NULL
        st.assume(z3.And(ks >= 0, ke >= ks, sp_ > 0, ln > 0, ln <= sp_, ke < (1 << 30), sp_ < (1 << 29)))
        if large: L = Ptr(ex.sym_bytes(st, 'large', VS, kind='heap', ro=False), 0); st.assume(VS == x(ke) + x(sp_))
        else: st.assume(x(ke) + x(sp_) <= SIZE)
        S = ex.bytes_at(st, L) if large else ex.bytes_at(st, Ptr(C, 0)) # the bytes received so far, as they lie in the buffer
        (t,) = call(ex, st.copy(), 'h_array', [B]); arr = t.result
        (st,) = call(ex, st, 'h_state', [B, Ptr(C, 0), ks, ke, sp_, L, VS if large else 0]); st.result = None
        C0 = x(ks); E = x(ke) + x(ln) # positions in the received stream: its first kept byte is where it lies in the buffer
        st.ghost.update(consumed=C0, announced=z3.BoolVal(True), over=z3.BoolVal(False), shown=z3.BoolVal(False))
        @ex.contracts_front.on(r'^v_feed$')
        def feed(ex, s, a, I):
            "a session: consumes at least one byte, waits for more, or asks to disconnect"
            g = s.ghost; n = b64(a[1]); Tx = ex.bytes_at(s, a[0]); i = k
            ex.oblige(s, z3.And(n == E - g['consumed'], n != 0), 'the session is shown as many bytes as it has not consumed'); ex.inbounds(s, a[0], n, 'what is shown')
            at = z3.BitVec(fresh_name('at'), 64); lo = arr.off if a[0].obj == B.obj else 0; P = list(s.pc); s.pc = P + [z3.ULT(i, n), at == g['consumed'] + i] # at: the position in the stream
            f = z3.And(b64(a[0].off) + i == at + lo, z3.ULT(at, E)); ex.oblige(s, f, 'what is shown starts where the bytes not consumed start'); s.assume(f)
            ex.oblige(s, bv(ex.bytes_at(s, Ptr(a[0].obj, 0))(at + lo), 8) == bv(S(at), 8), 'the session is shown the bytes it has not consumed'); s.pc = P; ex.oblige(s, z3.And(g['announced'], z3.Not(g['over'])), 'the session is asked again only after its last message was announced')
            res = []; 
            for r in (OK, READ_ON, WRONG_REPLY, DISCONNECT):
                q = s.copy(); used = z3.BitVec(fresh_name('parsed'), 32)
                if r == OK: q.assume(z3.And(used > 0, z3.ULE(x(used), n))); q.ghost['consumed'] = g['consumed'] + x(used); q.ghost['announced'] = z3.BoolVal(False)
                elif r == DISCONNECT: q.ghost['over'] = z3.BoolVal(True)
                q.ghost['shown'] = z3.BoolVal(True)
                ex.wr(q, a[2], 4, used); ok, mo = ex.inc_check(q.pc, z3.BoolVal(True))
                if ok != 'unsat': q.model = mo; res.append((q, r))
            return res
        @ex.contracts_front.on(r'^v_parsed$')
        def parsed(ex, s, a, I):
            "announcement of a parsed message"
            ex.oblige(s, z3.Not(s.ghost['announced']), 'only parsed messages are announced'); s.ghost['announced'] = z3.BoolVal(True); return None
        def cands(ex, entry, v0, ints, keys):
            o = [('announced', lambda vw: z3.And(vw.st.ghost['announced'], z3.Not(vw.st.ghost['over'])))]
            o.append(('consumed<E', lambda vw: z3.And(vw.st.ghost['consumed'] >= C0, vw.st.ghost['consumed'] < E)))
            for kk, G, w, p in ints:
                if w == 32: o.append((f'{kk[:3]} is what is consumed', lambda vw, G=G: b64(G(vw)) == vw.st.ghost['consumed']))
            return o
        ex.cand_hooks.append(cands)
        for s in call(ex, st, 'h_receive', [B, ln]):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
            g = s.ghost; go = zb(s.result); ex.oblige(s, go == z3.Not(g['over']), 'goes on exactly unless the session asked to disconnect'); ex.oblige(s, z3.And(g['announced'], g['shown']), 'every parsed message was announced, and the new bytes were shown')
            s.assume(go)
            if ex.inc_check(s.pc, z3.BoolVal(True))[0] == 'unsat': continue
            outs = [Ptr(ex.new_obj(s, nm, 8, 'out'), 0) for nm in ('size', 'start', 'end', 'large', 'largeSize', 'array')]
            for p, w in zip(outs, (8, 4, 4, 8, 8, 8)): ex.wr(s, p, w, NULL if p in outs[3:4] + outs[5:] else 0)
            s.result = None
            for t in call(ex, s, 'h_space', [B] + outs):
                if isinstance(t.result, Throw): ex.oblige(t, False, 'does not throw'); continue
                size = b64(ex.rd(t, outs[0], 8, 'i64')); a, b = x(ex.rd(t, outs[1], 4, 'i32')), x(ex.rd(t, outs[2], 4, 'i32')); lp = ex.rd(t, outs[3], 8, 'ptr'); array = ex.rd(t, outs[5], 8, 'ptr'); ls = b64(ex.rd(t, outs[4], 8, 'i64')); con = t.ghost['consumed']; place = lp if lp.obj is not None else array; room = ls if lp.obj is not None else b64(SIZE)
                cover(ex, t, 'continues'); ex.oblige(t, z3.And(a >= 0, b >= a, b - a == E - con), 'exactly the bytes not consumed are kept')
                ex.oblige(t, t.result.obj == place.obj and z3.And(b64(SUB(t.result.off, place.off)) == b, z3.UGE(size, 1), z3.ULE(size, room), z3.ULE(b, room - size)), 'the space offered lies behind the kept bytes, is not empty and inside the buffer')
                if lp.obj is not None: ex.oblige(t, ls == b + size, 'a large message has its space at the end')
                
                at, to = z3.BitVec(fresh_name('at'), 64), z3.BitVec(fresh_name('to'), 64); t.pc = t.pc + [z3.ULT(k, E - con), at == con + k, to == a + k]; f = z3.And(z3.ULT(at, E), z3.ULT(to, b), to - a == at - con); ex.oblige(t, f, 'positions of the kept bytes'); t.assume(f)
                ex.oblige(t, bv(ex.bytes_at(t, Ptr(place.obj, 0))(b64(place.off) + to), 8) == bv(S(at), 8), 'the kept bytes are the ones that were received')
        need_covers(ex, 'continues'); return ex
    return proof
small = kept(False); small.__name__ = 'small'; small.__doc__ = 'a delivery into the fixed buffer, any kept bytes, any sequence of reactions of the session: the session is always shown exactly the received bytes it has not consumed; afterwards these bytes are kept, with space behind them'
large = kept(True); large.__name__ = 'large'; large.__doc__ = 'the same while a message larger than the fixed buffer is being received into a vector'
def ended(m):
    """an error or the end of the stream: nothing is shown, the connection ends"""
    ex, st, sp = setup(m); vector_contracts(ex.contracts); B = Ptr(ex.new_obj(st, 'buffer', 8192, 'arg'), 0); (st,) = call(ex, st, 'h_new', [B]); st.result = None; ln, code = z3.BitVecs('length code', 32); st.assume(z3.Or(ln == 0, code != 0)); st.assume(ln >= 0)
    @ex.contracts_front.on(r'^v_feed$')
    def feed(ex, s, a, I):
        "a session"
        ex.oblige(s, False, 'nothing is shown to the session'); return [(None, None)]
    categories(ex)
    for s in call(ex, st, 'h_failed', [B, ln, code]):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
        cover(ex, s, 'ended'); ex.oblige(s, z3.Not(zb(s.result)), 'the connection ends')
    need_covers(ex, 'ended'); return ex
PROOFS = [small, large, ended]
