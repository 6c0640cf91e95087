from jlib import *
HARNESS = 'json.cpp'; NATIVE = 'j03.cpp'
def json_ws(c): return z3.Or(*[c == b8(x) for x in (' ', '\t', '\n', '\r')])
def writer(m, fn, extra, post, setup_hook=None):
    ex, st, sp = setup(m)
    depth = z3.BitVec('depth', 32); st.assume(z3.And(depth >= 0, depth < 1 << 20)); skip = z3.Bool('skip')
    out = Ptr(ex.new_obj(st, 'out', 8, 'ghost'), 0); P, L0 = ex.G.init_prophecy(ex, st, out, 'out'); st.assume(z3.ULT(L0, 1 << 32))
    nd = Ptr(ex.new_obj(st, 'nd', 4, 'out'), 0); ns = Ptr(ex.new_obj(st, 'ns', 1, 'out'), 0)
    WS = scan(sp, 'JWS', lambda p: z3.Select(P, p), None, json_ws)
    hook = extra(ex, st, sp, P, L0)
    starts = [L0, L0 + 1] + (hook.get('starts', []) if isinstance(hook, dict) else [])
    args = hook['args'] if isinstance(hook, dict) else hook
    def cands(ex, entry, v0, ints, keys):
        o = []
        for j, s0 in enumerate(starts): o.append((f'JWS(L)=JWS(start{j})', lambda vw, s0=s0: WS(b64(ex.G.L(vw.st, out))) == WS(s0)))
        o.append(('L>=L0', lambda vw: z3.UGE(b64(ex.G.L(vw.st, out)), L0)))
        Le = b64(ex.G.L(entry, out))
        o.append(('JWS(L)=JWS(entry)', lambda vw: WS(b64(ex.G.L(vw.st, out))) == WS(Le)))
        o.append(('L grows with i', lambda vw: z3.And(z3.ULE(Le, b64(ex.G.L(vw.st, out))), z3.ULT(b64(ex.G.L(vw.st, out)), 1 << 40))))
        for k, G, w, p in ints:
            if w == 32: o.append((f'L-entry={k[:3]}', lambda vw, G=G: b64(ex.G.L(vw.st, out)) == Le + b64(G(vw))))
        return o
    ex.cand_hooks.append(cands)
    if isinstance(hook, dict) and 'cands' in hook: ex.cand_hooks.append(hook['cands'](out))
    for s in call(ex, st, fn, [out, depth, skip, nd, ns] + args):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'writing does not throw'); continue
        cover(ex, s, fn); L = b64(ex.G.L(s, out)); at = lambda i: z3.Select(P, i)
        D, K = bv(ex.rd(s, nd, 4, 'i32'), 32), bv(ex.rd(s, ns, 1, 'i8'), 8) != 0
        for n, c in post(s, at, L0, L, WS, depth, skip, D, K): ex.oblige(s, c, n)
    need_covers(ex, fn); return ex
def start(fn, br):
    def p(m):
        sz = z3.BitVec('declared', 32)
        return writer(m, fn, lambda ex, st, sp, P, L0: [sz], lambda s, at, L0, L, WS, d, sk, D, K: [('exactly the opening bracket is written', z3.And(L == L0 + 1, at(L0) == b8(br))), ('depth grows by one', D == d + 1), ('only a declared size of zero suppresses white space', K == z3.Or(sk, sz == 0))])
    return p
def end(fn, br):
    def p(m):
        return writer(m, fn, lambda ex, st, sp, P, L0: [], lambda s, at, L0, L, WS, d, sk, D, K: [('white space, then exactly the closing bracket', z3.And(z3.UGE(L, L0 + 1), WS(L0) == L - 1, at(L - 1) == b8(br))), ('depth shrinks by one', D == d - 1), ('suppression is used up', z3.Not(K))])
    return p
_sa, _so, _ea, _eo = start('h_startArray_', '['), start('h_startObject_', '{'), end('h_endArray_', ']'), end('h_endObject_', '}')
def start_array(m):
    """any declared size, depth and earlier output: appends exactly '['"""
    return _sa(m)
def start_object(m):
    """as start_array with '{'"""
    return _so(m)
def end_array(m):
    """any depth and earlier output: appends JSON white space, then exactly ']'"""
    return _ea(m)
def end_object(m):
    """as end_array with '}'"""
    return _eo(m)
def element(m):
    """any index: appends a comma iff index > 0, then only JSON white space"""
    i = z3.BitVec('index', 32)
    k = lambda L0: L0 + z3.If(i > 0, b64(1), b64(0))
    return writer(m, 'h_element_', lambda ex, st, sp, P, L0: [i], lambda s, at, L0, L, WS, d, sk, D, K: [('a comma exactly when it is not the first', z3.Implies(i > 0, at(L0) == b8(','))), ('nothing but white space behind it', WS(k(L0)) == WS(L)), ('at least the comma is written', z3.UGE(L, k(L0))), ('depth unchanged', D == d)])
def member(m):
    """any index, any name: appends a comma iff index > 0, white space, a literal denoting the name, white space, a colon, white space"""
    i = z3.BitVec('index', 32); n = z3.BitVec('n', 64); box = {}
    k = lambda L0: L0 + z3.If(i > 0, b64(1), b64(0))
    def extra(ex, st, sp, P, L0):
        st.assume(z3.ULT(n, (1 << 31) - 64)); txt = ex.sym_bytes(st, 'name', n); V = ex.bytes_at(st, Ptr(txt, 0)); ex.hints = [('n', n)]
        DEC = decoder(sp, 'DEC', lambda j: z3.Select(P, j)); LIST = prefix(sp, 'LIST', V); box.update(DEC=DEC, LIST=LIST)
        def mk(out):
            def cands(ex, entry, v0, ints, keys):
                o = []; Le = b64(ex.G.L(entry, out))
                for kk, G, w, p in ints:
                    o.append((f'DEC(L,LIST({kk[:3]}))=DEC(entry)', lambda vw, G=G: DEC(b64(ex.G.L(vw.st, out)), LIST(b64(G(vw)))) == DEC(Le, nil)))
                o.append(('quote', lambda vw: z3.And(z3.Select(P, Le - 1) == b8('"'))))
                return o
            return cands
        return dict(args=[i, Ptr(txt, 0), n], cands=mk)
    JWS = {}
    def post(s, at, L0, L, WS, d, sk, D, K):
        q = WS(k(L0)); r = box['DEC'](q + 1, nil); e = Res.end(r); c = WS(e)
        return [('a comma exactly when it is not the first', z3.Implies(i > 0, at(L0) == b8(','))), ('white space, then a literal of the name', z3.And(at(q) == b8('"'), r == Res.ok(box['LIST'](n), e))), ('white space, a colon and white space', z3.And(at(c) == b8(':'), WS(c + 1) == WS(L))), ('depth unchanged', D == d)]
    return writer(m, 'h_member_', extra, post)
def reading(m):
    """any document, any position: startReadingArray returns iff '[' follows the separators and stops behind it; nextArrayElement says whether something other than ']' follows and consumes only separators; endReadingArray consumes one character"""
    ex, st0, sp = setup(m)
    for fn in ('h_startArray', 'h_nextElement', 'h_endArray'):
        st = st0.copy(); n, src, pos, p, S, end = source(ex, st); WS = scan(sp, 'WS' + fn, S, n, is_ws); q = WS(p)
        ex.cand_hooks = [positions(lambda ex: [('WS=WS(p)', lambda vw, x: WS(x) == q)]), chars(S, n)]
        for s in call(ex, st, fn, [src, n, pos, end]):
            if isinstance(s.result, Throw): ex.oblige(s, z3.Not(z3.And(z3.ULT(q, n), S(q) == b8('[')) if fn == 'h_startArray' else z3.ULT(q, n)), fn + ' throws only if its bracket is missing'); continue
            cover(ex, s, fn); e = z3.SignExt(32, bv(ex.rd(s, end, 4, 'i32'), 32)); r = s.result
            if fn == 'h_startArray': ex.oblige(s, z3.And(z3.ULT(q, n), S(q) == b8('['), e == q + 1), 'consumes exactly the opening bracket')
            elif fn == 'h_nextElement': ex.oblige(s, z3.And(z3.ULT(q, n), zb(r) == (S(q) != b8(']')), e == q), 'there is another element unless the closing bracket follows')
            else: ex.oblige(s, z3.And(z3.ULT(q, n), e == q + 1), 'consumes exactly one character')
        need_covers(ex, fn)
    return ex
def read_object(m):
    """any document; a member callback that may leave the position anywhere further on and stop at any time. Ensures: '{' is consumed; every callback gets the decoded name standing behind the separators at the position its predecessor left, and consecutive indices from 0;
    the position handed to it is right behind the name; after the last one the closing bracket is consumed"""
    ex, st, sp = setup(m); n, src, pos, p, S, end = source(ex, st); WS = scan(sp, 'WS', S, n, is_ws); q = WS(p); DEC = decoder(sp, 'DEC', S, n)
    st.ghost['prev'] = q + 1; st.ghost['count'] = z3.BitVecVal(0, 32); st.ghost['stop'] = z3.BitVecVal(0, 8); gs = []
    ex.new_gstr = lambda st_, p_: gs.append(p_)
    D = lambda s: DEC(WS(b64(s.ghost['prev'])) + 1, nil)
    @ex.contracts_front.on(r'^v_member$')
    def vm(ex, s, a, I):
        "member callback: any position further on, any answer"
        inp, name, size, index = a; cell = Ptr(inp.obj, add64(inp.off, ex.pos_off))
        at = z3.SignExt(32, bv(ex.rd(s, cell, 4, 'i32'), 32)); d = D(s)
        ex.oblige(s, z3.Implies(d != Res.bad, z3.And(d == Res.ok(ex.G.B(s, gs[-1]), at))), 'the callback gets the denoted name and stands right behind it')
        ex.oblige(s, ex.view_of.get(name.obj) is not None and ex.view_of[name.obj].eq(ex.G.B(s, gs[-1])), 'the name is the string that was read')
        ex.oblige(s, bv(index, 32) == s.ghost['count'], 'members are numbered consecutively from 0')
        ex.oblige(s, s.ghost['stop'] == 0, 'nothing is read after the callback asked to stop')
        new = z3.BitVec(fresh_name('moved'), 32); n64 = z3.SignExt(32, new); s.assume(z3.And(n64 >= at, n64 <= n)); ex.wr(s, cell, 4, new)
        go = z3.Bool(fresh_name('go')); s.ghost['prev'] = n64; s.ghost['count'] = s.ghost['count'] + 1; s.ghost['stop'] = z3.If(go, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8))
        return go
    ex.pos_off = 40 + 0
    def cands(ex, entry, v0, ints, keys):
        o = []
        if not gs: return o
        for k, G, w, pp in ints:
            if w < 32: continue
            o.append((f'WS({k[:3]})=WS(prev)', lambda vw, G=G: WS(b64(G(vw))) == WS(b64(vw.st.ghost['prev']))))
            o.append((f'{k[:3]}=prev', lambda vw, G=G: b64(G(vw)) == b64(vw.st.ghost['prev'])))
            o.append((f'prev<={k[:3]}', lambda vw, G=G: b64(vw.st.ghost['prev']) <= b64(G(vw))))
            o.append((f'{k[:3]}=count', lambda vw, G=G: z3.Extract(31, 0, b64(G(vw))) == vw.st.ghost['count']))
            for d in (0, 1, 2): o.append((f'DEC({k[:3]}-{d},buf)=D0', lambda vw, G=G, d=d: z3.Implies(D(vw.st) != Res.bad, DEC(b64(SUB(G(vw), d)), ex.G.B(vw.st, gs[-1])) == D(vw.st))))
        o.append(('prev in range', lambda vw: z3.And(b64(vw.st.ghost['prev']) >= 0, b64(vw.st.ghost['prev']) <= n)))
        o.append(('not stopped', lambda vw: vw.st.ghost['stop'] == 0))
        o.append(('count>=0', lambda vw: vw.st.ghost['count'] >= 0))
        return o
    ex.cand_hooks = [positions(lambda ex: [('WS=WS(p)', lambda vw, x: WS(x) == q)]), chars(S, n, (0, 1)), cands]
    for s in call(ex, st, 'h_readObject', [src, n, pos, end]):
        if isinstance(s.result, Throw): continue
        cover(ex, s, 'object read'); e = z3.SignExt(32, bv(ex.rd(s, end, 4, 'i32'), 32)); w = WS(b64(s.ghost['prev']))
        ex.oblige(s, z3.And(S(q) == b8('{'), e == w + 1), 'the object starts with its bracket and ends behind one character')
        ex.oblige(s, z3.Or(s.ghost['stop'] == 1, S(w) == b8('}')), 'the members end at the closing bracket or when the callback stops')
    need_covers(ex, 'object read'); return ex
PROOFS = [read_object, member, start_array, start_object, end_array, end_object, element, reading]
