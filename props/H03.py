from hserver import *
import jsonspec
HARNESS = 'http.cpp'; NATIVE = 'h03.cpp'
def answers(m):
    """a session in any state an answered request leaves behind, any header (parse under its contract), any responder that writes nothing, the body in one piece or two: exactly one response per complete request, a complete and well-formed one whose status says what became of the request (204, 404, 400, 500 after an exception, 501); nothing before that"""
    return step(m, 'answer')
def framing(m):
    """any content type, any contents in two pieces, with a size known before and without (buffers under their contracts from E01): exactly one response is sent, 200, with the content type, and Content-Length is the number of bytes that follow the header, which are the contents"""
    ex, st0, sp = setup(m, merge_limit=0, ints=True); Num = jsonspec.Numbers(ex.contracts_front); ex.unroll = [r'HttpParseState::parse\(', r'firstLineReader', r'char_traits<char>::length', r'array<char']
    textbuffers(ex)
    @ex.contracts_front.on(r'^v_out$')
    def vo(ex, s, a, I):
        "sending"
        ex.oblige(s, EQ(b64(a[1]), b64(s.ghost['length'])) if a[0].obj == s.ghost['text'].obj and not s.ghost['streaming'] else False, 'all of the response is sent'); s.ghost['sent'] = s.ghost['sent'] + 1; return None
    for sized in (True, False):
        st = st0.copy(); k = z3.BitVec('k', 64); tn, n1, n2 = [z3.ZeroExt(34, z3.BitVec(x, 30)) for x in ('type_size', 'first_size', 'second_size')]; st.assume(z3.ULT(n1 + n2, 1 << 30)); st.assume(z3.ULT(tn, 1 << 20))
        t, x, y = (ex.sym_bytes(st, nm, n, ro=True) for nm, n in (('type', tn), ('first', n1), ('second', n2))); st.ghost.update(textghost())
        total = n1 + n2; st.assume(z3.ULE(Num.len['l'](total), 10))   # a number below 2^31 has 10 digits at most
        st.assume(Num.byte['l'](total, b64(0)) != b8('-'))
        for s in call(ex, st, 'h_frame', [Ptr(t, 0), tn, Ptr(x, 0), n1, Ptr(y, 0), n2, sized]):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
            g = s.ghost; cover(ex, s, f'known {sized}'); nm = f'size known: {sized}: '
            ex.oblige(s, z3.And(g['stream'] == 1, g['sent'] == 1, bv(s.result, 32) == OK), nm + 'one response')
            M0 = ex.bytes_at(s, g['text']); M = lambda i: bv(M0(i), 8); L = b64(g['length']); text = known(ex, s, M)
            h = re.match(rb'HTTP/1\.1 200 [ -~]*\r\ncontent-length:[ \t]*', text, re.I)
            if not h: ex.oblige(s, False, nm + 'the response starts with 200 and the length'); continue
            f = h.end() - (1 if not h.group(0).endswith(b':') else 0)
            if h.group(0).endswith(b' '): f = h.end()
            n = Num.len['l'](total)
            for j in range(10): ex.oblige(s, z3.Implies(z3.ULT(j, n), M(f + j) == Num.byte['l'](total, b64(j))), nm + 'the length is the number of bytes that follow')
            e = b64(f + 31)
            for j in reversed(range(f + 1, f + 31)): e = z3.If(z3.And(z3.UGE(j, f + n), z3.Not(blank(M(j)))), b64(j), e)
            ev = settle(ex, s, e, f + n); c = b'\r\ncontent-type: '
            ex.oblige(s, z3.And(*[low(M(ev + j)) == b8(x) for j, x in enumerate(c)]), nm + 'the length ends its line, the content type follows')
            b = ev + len(c); ex.oblige(s, z3.Implies(z3.ULT(k, tn), M(b + k) == bv(ex.bytes_at(s, Ptr(t, 0))(k), 8)), nm + 'the content type'); ex.oblige(s, z3.And(*[M(b + tn + j) == b8(x) for j, x in enumerate(b'\r\n\r\n')]), nm + 'the header ends with a blank line')
            b0 = b; b = z3.BitVec(fresh_name('contents'), 64); s.assume(b == b0 + tn + 4); ex.oblige(s, L == b + n1 + n2, nm + 'nothing but the contents follows'); at = z3.And(g['before'] == b, g['last'] == b + n1); ex.oblige(s, at, nm + 'the contents stand behind the header'); s.assume(at); ex.oblige(s, z3.Implies(z3.ULT(k, n1), M(g['before'] + k) == bv(ex.bytes_at(s, Ptr(x, 0))(k), 8)), nm + 'the contents'); ex.oblige(s, z3.Implies(z3.ULT(k, n2), M(g['last'] + k) == bv(ex.bytes_at(s, Ptr(y, 0))(k), 8)), nm + 'the contents behind the first part')
        need_covers(ex, f'known {sized}')
    return ex
PROOFS = [answers, framing]
