from lib import *
HARNESS = 'buffers.cpp'; NATIVE = 'e01.cpp'
def append(m):
    """any buffer (any memory, any fill level, any reaction to being full), any text: every byte goes to the place behind its predecessor, in order, and is handed over exactly when the buffer is full; after a refusal nothing is stored; size() counts the stored bytes; no access outside the memory"""
    ex, st0, sp = setup(m, generic=False, inv_timeout=1500, ints=True); cap, start, n, k = [z3.ZeroExt(34, z3.BitVec(x, 30)) for x in ('capacity', 'start', 'length', 'k')]
    @ex.contracts_front.on(r'^v_full$')
    def full(ex, s, a, I):
        "reaction to a full buffer: refusal, or any other non-empty place"
        g = s.ghost; R = ex.bytes_at(s, Ptr(ex.W, 0))
        ex.oblige(s, z3.Implies(z3.And(z3.ULE(g['taken'], k), z3.ULT(k, g['taken'] + cap - g['start'])), bv(R(g['start'] + k - g['taken']), 8) == bv(ex.T(k), 8)), 'a full buffer holds the next bytes of the text')
        ex.oblige(s, z3.ULE(g['taken'] + cap - g['start'], n), 'no more than the text is handed over')
        g['taken'] = g['taken'] + cap - g['start']
        s2 = s.copy(); s2.ghost['start'] = cap; s2.ghost['refused'] = z3.BitVecVal(1, 8)
        new = z3.BitVec(fresh_name('start'), 32); n64 = z3.ZeroExt(32, new); s.assume(z3.And(new >= 0, z3.ULT(n64, cap), g['refused'] == 0)); g['start'] = n64
        return [(s, new), (s2, 0xffffffff)]
    def cands(ex, entry, v0, ints, keys):
        o = [('refused only when full', lambda vw: z3.Implies(vw.st.ghost['refused'] == 1, vw.st.ghost['start'] == cap)), ('flag', lambda vw: z3.ULE(vw.st.ghost['refused'], 1)), ('start<=cap', lambda vw: z3.ULE(vw.st.ghost['start'], cap)), ('taken<=n', lambda vw: z3.ULE(vw.st.ghost['taken'], n))]
        for key in keys:
            p = v0.get(key) if key[0] not in ('arr', 'ghost') else None
            if not isinstance(p, Ptr) or p.obj != ex.W: continue
            cur = lambda vw, key=key: b64(vw.get(key).off)
            o.append(('start<=cur<=cap', lambda vw, cur=cur: z3.And(z3.ULE(vw.st.ghost['start'], cur(vw)), z3.ULE(cur(vw), cap))))
            def here(vw, cur=cur):
                g = vw.st.ghost; R = ex.bytes_at(vw.st, Ptr(ex.W, 0))
                return z3.Implies(z3.And(z3.ULE(g['taken'], k), z3.ULT(k, g['taken'] + cur(vw) - g['start'])), bv(R(g['start'] + k - g['taken']), 8) == bv(ex.T(k), 8))
            o.append(('byte k in place', here))
            o.append(('room', lambda vw, cur=cur: z3.Or(vw.st.ghost['refused'] == 1, z3.ULT(cur(vw), cap))))
            for a, G, w, isp in ints:
                if w < 32 or isp: continue
                o.append((f'{a[:3]}=taken+cur-start', lambda vw, G=G, cur=cur: b64(G(vw)) == vw.st.ghost['taken'] + cur(vw) - vw.st.ghost['start'])); o.append((f'{a[:3]}=cap-cur', lambda vw, G=G, cur=cur: b64(G(vw)) == cap - cur(vw)))
                o.append((f'{a[:3]}: partly only at the end', lambda vw, G=G, cur=cur: z3.Or(b64(G(vw)) == n, cur(vw) == vw.st.ghost['start'])))
                o.append((f'{a[:3]}<=n', lambda vw, G=G: z3.ULE(b64(G(vw)), n)))
        return o
    for fn in ('h_appendText', 'h_appendSpan', 'h_appendChar'):
        st = st0.copy(); st.assume(z3.And(cap != 0, z3.ULE(start, cap), z3.ULT(k, n))); ex.hints = [('capacity', cap), ('length', n), ('start', start)]
        if fn == 'h_appendChar': st.assume(n == 1)
        ex.W = ex.sym_bytes(st, 'memory', cap, ro=False); t = ex.sym_bytes(st, 'text', n, ro=True); ex.T = ex.bytes_at(st, Ptr(t, 0))
        left = Ptr(ex.new_obj(st, 'left', 8, 'out'), 0); size = Ptr(ex.new_obj(st, 'size', 4, 'out'), 0); ex.wr(st, left, 8, 0); ex.wr(st, size, 4, 0)
        st.ghost.update(taken=z3.BitVecVal(0, 64), start=start, refused=z3.If(start == cap, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))); ex.cand_hooks = [cands]
        for s in call(ex, st, fn, [Ptr(ex.W, 0), cap, start, Ptr(t, 0), n, left, size]):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'appending does not throw'); continue
            cover(ex, s, fn); g = s.ghost; cur = cap - bv(ex.rd(s, left, 8, 'i64'), 64); held = cur - g['start']; total = g['taken'] + held; R = ex.bytes_at(s, Ptr(ex.W, 0))
            ex.oblige(s, z3.And(z3.ULE(g['start'], cur), z3.ULE(cur, cap), z3.Or(total == n, z3.And(g['refused'] == 1, cur == cap, z3.ULE(total, n)))), fn[2:] + ': the whole text is taken unless the buffer refuses more')
            ex.oblige(s, z3.Implies(z3.And(z3.ULE(g['taken'], k), z3.ULT(k, total)), bv(R(g['start'] + k - g['taken']), 8) == bv(ex.T(k), 8)), fn[2:] + ': the bytes are stored in order')
            ex.oblige(s, z3.SignExt(32, bv(ex.rd(s, size, 4, 'i32'), 32)) == total, fn[2:] + ': the size counts the stored bytes')
        need_covers(ex, fn)
    return ex
def each(*ns):
    for N in (1, 8, 1024): yield N
def expanding(m):
    """expanding buffers of 1, 8 and 1024 static bytes, any contents, any extended length: a full buffer keeps its contents and their order, has room again and the next byte goes behind the others; clearing empties it"""
    ex, st0, sp = setup(m)
    for N in each():
        for fn in ('h_growFirst', 'h_growMore'):
            st = st0.copy(); n = z3.BitVec('length', 64) if fn == 'h_growMore' else b64(N); i = z3.BitVec('index', 64); st.assume(z3.And(z3.ULT(i, n)))
            if fn == 'h_growMore': st.assume(z3.And(z3.UGE(n, 3 * N), z3.ULT(n, 1 << 29))); ex.hints = [('length', n)]
            t = ex.sym_bytes(st, 'text', n if fn == 'h_growMore' else N, ro=True); T = ex.bytes_at(st, Ptr(t, 0)); out = Ptr(ex.new_obj(st, 'byte', 1, 'out'), 0); ex.wr(st, out, 1, 0)
            for s in call(ex, st, fn + str(N), [Ptr(t, 0)] + ([n] if fn == 'h_growMore' else []) + [i, out]):
                if isinstance(s.result, Throw): ex.oblige(s, False, 'growing does not throw'); continue
                cover(ex, s, fn + str(N)); ex.oblige(s, bv(ex.rd(s, out, 1, 'i8'), 8) == bv(T(i), 8), 'every byte is kept')
            need_covers(ex, fn + str(N))
        for s in call(ex, st0.copy(), f'h_empty{N}', [z3.BitVec('c', 8)]):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
            cover(ex, s, f'empty{N}')
        need_covers(ex, f'empty{N}')
    return ex
def streaming(m):
    """streaming buffers of 1, 8 and 1024 bytes: a full buffer passes on exactly its bytes, once, and is used from its beginning; destruction passes on exactly the rest, once, or nothing if there is none"""
    ex, st0, sp = setup(m)
    @ex.contracts_front.on(r'^v_written$')
    def w(ex, s, a, I):
        "the receiver of the stream"
        s.ghost['calls'] = s.ghost['calls'] + 1; i = ex.cur['i']; R = ex.bytes_at(s, a[0])
        ex.inbounds(s, a[0], norm(a[1]), 'written range')
        ex.oblige(s, z3.Implies(s.ghost['calls'] == 1, z3.And(b64(a[1]) == ex.cur['n'], z3.Implies(z3.ULT(i, ex.cur['n']), bv(R(i), 8) == bv(ex.cur['T'](i), 8)))), 'exactly the unwritten bytes are passed on')
        return None
    for N in each():
        for fn in ('h_stream', 'h_streamFull'):
            st = st0.copy(); n = z3.BitVec('length', 64) if fn == 'h_stream' else b64(N); i = z3.BitVec('index', 64); st.assume(z3.ULT(n, N) if fn == 'h_stream' else z3.BoolVal(True)); ex.hints = [('length', n)] if fn == 'h_stream' else []
            t = ex.sym_bytes(st, 'text', n if fn == 'h_stream' else N, ro=True); ex.cur = dict(i=i, n=n, T=ex.bytes_at(st, Ptr(t, 0))); st.ghost['calls'] = z3.BitVecVal(0, 8); before = z3.BitVec('before', 32); st.assume(z3.And(before >= 0, before < 1 << 30))
            for s in call(ex, st, fn + str(N), [Ptr(t, 0), n if fn == 'h_stream' else before]):
                if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
                cover(ex, s, fn + str(N)); ex.oblige(s, s.ghost['calls'] == z3.If(n == 0, b8(0), b8(1)), 'passed on exactly once, and nothing if there is nothing')
            need_covers(ex, fn + str(N))
    return ex
def keeping(m):
    """fixed buffers of 1, 8 and 1024 bytes, any text: the first bytes that fit are kept in order, the rest is dropped without a trace, size() is the length kept; clearing empties it"""
    ex, st0, sp = setup(m); ex.cand_hooks = []
    for N in each():
        st = st0.copy(); n, i = z3.BitVecs('length index', 64); st.assume(z3.ULT(n, 1 << 30)); ex.hints = [('length', n)]; t = ex.sym_bytes(st, 'text', n, ro=True); T = ex.bytes_at(st, Ptr(t, 0)); c = z3.BitVec('extra', 8)
        al = Ptr(ex.new_obj(st, 'all', 8, 'out'), 0); out = Ptr(ex.new_obj(st, 'byte', 1, 'out'), 0); ex.wr(st, al, 8, 0); ex.wr(st, out, 1, 0)
        def cands(ex, entry, v0, ints, keys):
            o = []
            for key in keys:
                p = v0.get(key) if key[0] not in ('arr', 'ghost') else None
                if not isinstance(p, Ptr) or p.obj is None or ex.objs[p.obj].kind != 'stack': continue
                base = p.off
                cur = lambda vw, key=key, base=base: b64(SUB(vw.get(key).off, base))
                o.append(('filled', lambda vw, cur=cur: z3.And(z3.ULE(cur(vw), n), z3.ULE(cur(vw), N))))
                o.append(('byte', lambda vw, cur=cur, p=p: z3.Implies(z3.ULT(i, cur(vw)), bv(ex.bytes_at(vw.st, p)(i), 8) == bv(T(i), 8))))
                for a, G, w, isp in ints:
                    if w < 32 or isp: continue
                    o.append((f'{a[:3]}=cur', lambda vw, G=G, cur=cur: b64(G(vw)) == cur(vw))); o.append((f'{a[:3]}=N-cur', lambda vw, G=G, cur=cur: b64(G(vw)) == N - cur(vw))); o.append((f'{a[:3]}: room or end', lambda vw, G=G, cur=cur: z3.Or(b64(G(vw)) == n, cur(vw) == 0)))
            return o
        ex.cand_hooks = [cands]
        for s in call(ex, st, f'h_keep{N}', [Ptr(t, 0), n, c, al, out, i]):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
            cover(ex, s, f'{N}'); A = bv(ex.rd(s, al, 8, 'i64'), 64)
            ex.oblige(s, A == z3.If(z3.ULT(n, N), n + 1, b64(N)), 'as much as fits is kept'); ex.oblige(s, z3.Implies(z3.ULT(i, A), bv(ex.rd(s, out, 1, 'i8'), 8) == z3.If(z3.ULT(i, n), bv(T(i), 8), c)), 'the bytes kept are the first ones, in order')
        need_covers(ex, f'{N}')
    return ex
PROOFS = [append, expanding, streaming, keeping]
