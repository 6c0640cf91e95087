from hserver import *
import jsonspec
HARNESS = 'http.cpp'; NATIVE = 'h05.cpp'
def receive(m):
    """the client, any token waited for and any responses before it, any two deliveries (kept or new responses; the second one the same response with more of its body, or any other), parse under its contract: the reader gets a response only when it is complete and the wanted one, as all of its body and nothing else, with success exactly for 200 to 299; other responses are put aside with their own token and their own size; more is asked for until a response is complete; a header is always read with a fresh state"""
    ex, st, sp = setup(m, generic=False, inv_timeout=3000); wanted, read = z3.BitVecs('wanted last_read', 32); st.assume(wanted != read); C = []
    CODE = z3.Function('number_at', W64, W64, z3.BitVecSort(32)); ISNUM = z3.Function('is_number_at', W64, W64, z3.BoolSort())
    for t in (0, 1):
        n, d0, body = z3.BitVecs(f'n{t} first_line{t} end_of_header{t}', 64); length, reaction = z3.BitVecs(f'length{t} reaction{t}', 32); code = z3.BitVec(f'code{t}', 32); ok = z3.Bool(f'is_number{t}')
        st.assume(z3.And(z3.ULT(n, 1 << 30), z3.ULE(d0, n), z3.Or(reaction == OK, reaction == READ_ON, reaction == DISCONNECT), z3.Implies(reaction == OK, z3.And(z3.ULT(d0, n), body >= d0, body <= n, length >= -1, length <= 0x3fffffff))))
        o = ex.sym_bytes(st, f'input{t}', n, ro=True); T0 = ex.bytes_at(st, Ptr(o, 0)); T = lambda i, T0=T0: bv(T0(i), 8); S = scanto(sp, f'WORD_END{t}', T, d0, lambda c: c == b8(' '))
        C.append(dict(n=n, d0=d0, body=body, length=length, reaction=reaction, code=code, ok=ok, o=o, S=S, size=z3.If(length < 0, b64(0), z3.SignExt(32, length)), T=T))
    # second delivery of the same response: more of it
    n2 = z3.BitVec('n_more', 64); st.assume(z3.And(z3.UGE(n2, C[0]['n']), z3.ULT(n2, 1 << 30))); more = ex.sym_bytes(st, 'input0 and more', n2, ro=True)
    def cur(g): return C[0] if g['turn'] == 0 else C[1]
    def header(c): return z3.And(z3.ULT(c['d0'], c['n']), z3.ULT(c['S'](b64(0)) + 1, c['d0']), c['reaction'] == OK)
    def n_(g): return n2 if g['same'] else cur(g)['n']
    def complete(g): c = cur(g); return z3.And(header(c), z3.ULE(c['body'] + c['size'], n_(g)))
    @ex.contracts_front.on(r'HttpParseState::parse\(')
    def parse(ex, s, a, I):
        "HttpParseState::parse: as proved for it (H01 headers, H02 parse)"
        c = cur(s.ghost); ex.oblige(s, z3.And(not s.ghost['same'], a[1].obj == c['o'], b64(a[1].off) == 0, b64(a[2]) == c['n']) if not s.ghost['same'] else False, 'a header is read once, from the beginning of the input')
        s.ghost['parsed'] = s.ghost['turn']; return FnPtr('->' + next(k for k, f in ex.m.fns.items() if f['dem'].startswith('parseContract')))
    @ex.contracts_front.on(r'^v_lineEnd$')
    def le(ex, s, a, I): return cur(s.ghost)['d0']
    @ex.contracts_front.on(r'^v_nextHeader$')
    def nh(ex, s, a, I):
        c = cur(s.ghost); s2 = s.copy()
        for p, q in ((a[0], a[1]), (a[2], a[3])):
            v, n = z3.BitVec(fresh_name('header'), 64), z3.BitVec(fresh_name('size'), 64); s.assume(z3.And(z3.ULE(v, c['n']), z3.ULE(n, c['n'] - v))); ex.wr(s, p, 8, v); ex.wr(s, q, 8, n)
        s.ghost['left'] = z3.BitVec(fresh_name('left'), 64); s.assume(z3.ULT(s.ghost['left'], s2.ghost['left'])); return [(s, True), (s2, False)]
    @ex.contracts_front.on(r'^v_outcome$')
    def oc(ex, s, a, I): c = cur(s.ghost); ex.wr(s, a[1], 8, c['body']); ex.wr(s, a[2], 4, c['length']); return c['reaction']
    @ex.contracts_front.on(r'^v_anyPosition$')
    def ap(ex, s, a, I):
        p = a[0]
        for off, (w, v) in sorted(s.mem[p.obj].cells.items()):
            if p.off < off < p.off + 16: ex.wr(s, Ptr(p.obj, off), w, z3.BitVec(fresh_name('left_by_parse'), 8 * w))
        return z3.BitVec(fresh_name('position'), 64)
    @ex.contracts_front.on(r'std::from_chars<int(, |>)')
    def fc(ex, s, a, I):
        "std::from_chars reads inside the range given; the value it finds there is a function of the text"
        c = cur(s.ghost); first, last, out = a[:3]
        if not ex.ub(s, AND(ULE(first.off, last.off), ULE(last.off, ex.objs[first.obj].size)), 'from_chars range in bounds'): return [(None, None)]
        ex.oblige(s, z3.And(b64(first.off) == c['S'](b64(0)) + 1, b64(last.off) <= c['d0']), 'the code is read from the second word of the first line'); old = bv(ex.rd(s, out, 4, 'i32'), 32); ex.wr(s, out, 4, z3.If(c['ok'], c['code'], old)); return [first, z3.BitVec(fresh_name('fc_ec'), 32)]
    @ex.contracts_front.on(r'^v_deliver$')
    def dl(ex, s, a, I):
        "connection: anything may have arrived, or nothing"
        g = s.ghost; t = norm(a[0]); out = []
        def give(s, c, o, n, same, ident): s.ghost.update(turn=c, same=same, ident=ident, got=b8(0)); ex.wr(s, a[1], 8, Ptr(o, 0)); ex.wr(s, a[2], 8, n); ex.wr(s, a[3], 1, z3.If(ident, b8(1), b8(0))); s.model = None; return (s, True)
        if t == 0: return [give(s, 0, C[0]['o'], C[0]['n'], False, z3.Bool('identified')), (s.copy(), False)]
        s3 = s.copy(); s3.assume(g['reaction'] != READ_ON) if False else None; out.append((s3, False))
        s1 = s.copy(); s1.assume(z3.And(g['reaction'] == READ_ON, header(C[0]))); s2 = s.copy(); s2.assume(z3.Or(g['reaction'] == WRONG_REPLY, z3.And(g['reaction'] == READ_ON, z3.Not(header(C[0])))))
        for x, same in ((s1, True), (s2, False)):
            x.model = None
            if ex.check(x.pc, [])[0] != 'unsat': out.append(give(x, 0, more, n2, True, g['ident']) if same else give(x, 1, C[1]['o'], C[1]['n'], False, z3.Bool('identified2')))
        return out
    def iswanted(g): return z3.Or(g['ident'], wanted == g['next'])
    @ex.contracts_front.on(r'^v_message$')
    def msg(ex, s, a, I):
        "reader of the response: any answer"
        g = s.ghost; c = cur(g); cover(ex, s, 'message'); ex.oblige(s, z3.And(complete(g), iswanted(g), g['got'] == 0), 'only the wanted response, once, when it is complete')
        ex.oblige(s, z3.And(b64(a[1]) == c['size'], b64(a[0].off) == c['body']) if a[0].obj == (more if g['same'] else c['o']) else False, 'the message is the body of the response')
        code = z3.If(c['ok'], c['code'], z3.BitVecVal(0, 32)); ex.oblige(s, zb(a[2]) == z3.And(code >= 200, code < 300) if not isinstance(a[2], int) else z3.BoolVal(bool(a[2])) == z3.And(code >= 200, code < 300), 'success means 200 to 299'); g['got'] = g['got'] + 1; g['messages'] = g['messages'] + 1; return z3.Bool(fresh_name('answer'))
    @ex.contracts_front.on(r'^v_taken$')
    def tk(ex, s, a, I):
        "connection: what became of the delivery"
        g = s.ghost; c = cur(g); r, tok, at = bv(a[1], 32), bv(a[2], 32), bv(a[3], 64); done = complete(g); cover(ex, s, f'turn {norm(a[0])}')
        ex.oblige(s, z3.Implies(done, z3.And(r == z3.If(iswanted(g), z3.BitVecVal(OK, 32), z3.BitVecVal(WRONG_REPLY, 32)), at == c['body'] + c['size'], (g['got'] == 1) == iswanted(g))), 'a complete response is taken as a whole')
        ex.oblige(s, z3.Implies(z3.And(done, z3.Not(g['ident'])), tok == g['next']), 'responses have the tokens of their requests, in order'); ex.oblige(s, z3.Implies(z3.Not(done), z3.And(g['got'] == 0, z3.Implies(header(c), r == READ_ON), z3.Or(r == READ_ON, r == DISCONNECT))), 'more is asked for until the response is complete')
        g['next'] = z3.If(z3.And(done, z3.Not(g['ident'])), g['next'] + 1, g['next']); g['reaction'] = r; return None
    def cands(ex, entry, v0, ints, keys):
        out = [('one message', lambda vw: z3.ULE(vw.st.ghost['messages'], 1)), ('none yet', lambda vw: vw.st.ghost['messages'] == 0)]
        for k, G, w, pp in ints:
            g = (lambda vw, G=G: b64(G(vw))); x = k[:3]
            if w <= 8: out += [(f'{x} false', lambda vw, g=g: g(vw) == 0), (f'{x} done', lambda vw, g=g: z3.And(z3.ULE(g(vw), 1), z3.Implies(vw.st.ghost['messages'] == 1, g(vw) == 1)))]
            if w == 32:
                c = cur(entry.ghost); i0 = g(v0); out += [(f'{x}: word', lambda vw, g=g, c=c, i0=i0: z3.And(c['S'](g(vw)) == c['S'](i0), g(vw) >= 0, g(vw) <= c['d0'])), (f'{x}: next', lambda vw, G=G: z3.Extract(31, 0, b64(G(vw))) + 1 == vw.st.ghost['next'])]
        return out
    ex.cand_hooks = [cands]; ex.measure_hooks.append(lambda ex, entry, v0, ints, keys: [('headers left', lambda vw: vw.st.ghost['left'])])
    ex.check_termination = False   # the client waits for its response for as long as nothing arrives
    st.ghost.update(turn=0, same=False, ident=z3.BoolVal(False), got=b8(0), messages=b8(0), next=read + 1, reaction=z3.BitVecVal(0, 32), left=z3.BitVec('headers', 64), parsed=0)
    for s in call(ex, st, 'h_receive', [wanted, read]):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
        cover(ex, s, 'ends'); ex.oblige(s, z3.ULE(s.ghost['messages'], 1), 'the reader is called once at most')
    need_covers(ex, 'message', 'turn 0', 'turn 1', 'ends'); return ex
def requests(m):
    """any host, content type, path and body (in two pieces), buffers under their contracts: POST and GET requests are written once each, as one complete request with the host, and for POST the content type and the length of the body, which is what was written; the token handed to the writer is the one returned"""
    ex, st0, sp = setup(m, merge_limit=0, ints=True); Num = jsonspec.Numbers(ex.contracts_front); textbuffers(ex)
    @ex.contracts_front.on(r'^v_request$')
    def rq(ex, s, a, I):
        "sending"
        ex.oblige(s, EQ(b64(a[1]), b64(s.ghost['length'])) if a[0].obj == s.ghost['text'].obj else False, 'all of the request is sent'); s.ghost['sent'] = s.ghost['sent'] + 1; return None
    for post in (True, False):
        st = st0.copy(); k = z3.BitVec('k', 64); hn, tn, n1, n2 = [z3.ZeroExt(34, z3.BitVec(x, 30)) for x in ('host_size', 'type_size', 'first_size', 'second_size')]; st.assume(z3.ULT(n1 + n2, 1 << 30))
        for v in (hn, tn): st.assume(z3.ULT(v, 1 << 20))
        h, t, x, y = (ex.sym_bytes(st, nm, n, ro=True) for nm, n in (('host', hn), ('type', tn), ('first', n1), ('second', n2))); st.ghost.update(textghost()); total = n1 + n2; n = Num.len['l'](total); st.assume(z3.ULE(n, 10)); st.assume(Num.byte['l'](total, b64(0)) != b8('-'))   # a number below 2^31 has 10 digits at most
        inner = Ptr(ex.new_obj(st, 'inner', 4, 'out'), 0); ex.wr(st, inner, 4, 0)
        for s in (call(ex, st, 'h_post', [Ptr(h, 0), hn, Ptr(t, 0), tn, Ptr(x, 0), n1, Ptr(y, 0), n2, inner]) if post else call(ex, st, 'h_get', [Ptr(h, 0), hn, Ptr(t, 0), tn])):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
            g = s.ghost; nm = 'POST: ' if post else 'GET: '; cover(ex, s, nm); ex.oblige(s, z3.And(g['stream'] == 1, g['sent'] == 1), nm + 'one request'); M0 = ex.bytes_at(s, g['text']); M = lambda i: bv(M0(i), 8); L = b64(g['length']); text = known(ex, s, M)
            def lit(p, c): return z3.And(*[low(M(p + j)) == b8(chr(z).lower()) for j, z in enumerate(c)])
            def part(p, o, size, what): ex.oblige(s, z3.Implies(z3.ULT(k, size), M(p + k) == bv(ex.bytes_at(s, Ptr(o, 0))(k), 8)), nm + what)
            def place(e): v = z3.BitVec(fresh_name('place'), 64); s.assume(v == e); return v
            if post:
                p = re.match(rb'POST / HTTP/1\.1\r\ncontent-length:[ \t]*', text, re.I)
                if not p: ex.oblige(s, False, nm + 'starts with the length'); continue
                f = p.end(); e = b64(f + 31)
                for j in range(10): ex.oblige(s, z3.Implies(z3.ULT(j, n), M(f + j) == Num.byte['l'](total, b64(j))), nm + 'the length is that of the body')
                for j in reversed(range(f + 1, f + 31)): e = z3.If(z3.And(z3.UGE(j, f + n), z3.Not(blank(M(j)))), b64(j), e)
                e = settle(ex, s, e, f + n); c = b'\r\nhost: '; ex.oblige(s, lit(e, c), nm + 'the length ends its line, the host follows'); e = place(e + len(c)); part(e, h, hn, 'the host'); e = place(e + hn)
                c = b'\r\ncontent-type: '; ex.oblige(s, lit(e, c), nm + 'the content type follows'); e = place(e + len(c)); part(e, t, tn, 'the content type'); e = place(e + tn); ex.oblige(s, lit(e, b'\r\n\r\n'), nm + 'a blank line ends the header'); e = place(e + 4)
                at = z3.And(g['before'] == e, g['last'] == e + n1, L == e + total); ex.oblige(s, at, nm + 'the body follows'); s.assume(at); part(g['before'], x, n1, 'the body'); part(g['last'], y, n2, 'the rest of the body')
                ex.oblige(s, bv(s.result, 32) == bv(ex.rd(s, inner, 4, 'i32'), 32), nm + 'one token')
            else:
                ex.oblige(s, z3.BoolVal(text.startswith(b'GET ')), nm + 'method'); part(b64(4), t, tn, 'the path'); e = place(4 + tn); c = b' HTTP/1.1\r\nhost: '; ex.oblige(s, lit(e, c), nm + 'the protocol, then the host'); e = place(e + len(c)); part(e, h, hn, 'the host'); e = place(e + hn); ex.oblige(s, z3.And(lit(e, b'\r\n\r\n'), L == e + 4), nm + 'a blank line ends the request')
        need_covers(ex, nm)
    return ex
PROOFS = [receive, requests]
