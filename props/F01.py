from jlib import *
HARNESS = 'form.cpp'; NATIVE = 'f01.cpp'
def hex2(a, b):
    o1, h1 = hexv(a); o2, h2 = hexv(b); return z3.And(o1, o2), (h1 << 4) | h2
NUMVAL = z3.Function('DECIMAL_VALUE', *[Byte] * 7, z3.BitVecSort(32))
def decimal(rd, p, n):
    "value of the n <= 7 digits from p; None of it is checked here"
    return NUMVAL(*[z3.If(z3.UGT(n, k), rd(p + k), b8(0)) for k in range(7)])
def decoder_(spec, name, rd, end):
    """the denotation of an encoded name or value: '+' is a space, %XX the character with that Latin-1 code, %26%23 digits %3b the character with that code; anything else itself. DEC(p, acc)"""
    DIG = scan(spec, name + '_DIG', rd, end, digit)
    F = [None]
    def unfold(p, acc):
        c = rd(p); f = F[0]; inb = lambda k: z3.ULE(p + k, end)
        ok, v = hex2(rd(p + 1), rd(p + 2))
        D = DIG(p + 6); n = z3.Extract(31, 0, D - p - 6); val = decimal(rd, p + 6, n)
        ref = z3.And(v == ord('&'), inb(7), rd(p + 3) == b8('%'), rd(p + 4) == b8('2'), rd(p + 5) == b8('3'), digit(rd(p + 6)))
        closed = z3.And(z3.ULE(D + 3, end), rd(D) == b8('%'), rd(D + 1) == b8('3'), z3.Or(rd(D + 2) == b8('b'), rd(D + 2) == b8('B')))
        return z3.If(z3.UGE(p, end), Res.ok(acc, end), z3.If(c == b8('+'), f(p + 1, snoc(acc, b8(' '))),
            z3.If(c != b8('%'), f(p + 1, snoc(acc, c)),
            z3.If(z3.Not(z3.And(inb(3), ok)), Res.bad,
            z3.If(z3.And(ref, closed), z3.If(z3.And(z3.UGE(n, 1), z3.ULE(n, 7), z3.ULE(val, 0x10ffff)), f(D + 3, utf8(acc, val)), Res.bad),
                f(p + 3, utf8(acc, v)))))))
    F[0] = spec.define(name, [W64, Bytes], Res, unfold); F[0].DIG = DIG if hasattr(F[0], '__dict__') else None
    return F[0], DIG
def charconv(ex):
    @ex.contracts_front.on(r'std::from_chars<int(, |>)')
    def fc(ex, s, a, I):
        "std::from_chars<int>: the value of the digits at the start of the range in the given base, or the output is left as it was"
        first, last, out, base = a[0], a[1], a[2], norm(a[3])
        if not ex.ub(s, AND(ULE(first.off, last.off), ULE(last.off, ex.objs[first.obj].size)), 'from_chars range in bounds'): return [(None, None)]
        rd = ex.bytes_at(s, first); old = bv(ex.rd(s, out, 4, 'i32'), 32); new = z3.BitVec(fresh_name('fc'), 32); n = b64(SUB(last.off, first.off)); n32 = z3.Extract(31, 0, n)
        used = z3.BitVec(fresh_name('fc_used'), 64); s.assume(z3.ULE(used, n))
        at = lambda k: bv(rd(b64(k)), 8)
        if base == 16:
            ok, v = hex2(at(0), at(1)); ok1, h1 = hexv(at(0)); s.assume(z3.Implies(z3.And(n == 2, ok), new == v))
            s.assume(z3.Or(new == old, z3.And(new > -256, new < 256))) # at most two digits with a sign
        elif base == 10:
            alld = z3.And(z3.UGE(n, 1), z3.ULE(n, 7), *[z3.Implies(z3.ULT(k, n), digit(at(k))) for k in range(7)])
            s.assume(z3.Implies(alld, new == decimal(lambda q: at(q), b64(0), n32)))
        else: raise Unsupported('from_chars base')
        ex.wr(s, out, 4, new)
        return [Ptr(first.obj, ADD(first.off, used)), z3.BitVec(fresh_name('fc_ec'), 32)]
    @ex.contracts_front.on(r'std::to_chars\(char\*, char\*, int, int\)')
    def tc(ex, s, a, I):
        "std::to_chars<int> writes the decimal digits of the number"
        first, last, v = a[0], a[1], bv(a[2], 32)
        if not ex.ub(s, z3.And(v >= 0, v < 10000000), 'a number of at most seven digits is written'): return [(None, None)]
        if not ex.inbounds(s, first, 7, 'to_chars write'): return [(None, None)]
        ds = [z3.BitVec(fresh_name(f'tc_d{k}'), 8) for k in range(7)]; res = []
        for n in range(1, 8):
            s2 = s.copy(); s2.assume(z3.And(v >= (10 ** (n - 1) if n > 1 else 0), v < 10 ** n, *[digit(d) for d in ds[:n]], NUMVAL(*ds[:n], *[b8(0)] * (7 - n)) == v))
            r, mo = ex.inc_check(s2.pc, z3.BoolVal(True))
            if r == 'unsat': continue
            s2.model = mo
            if hasattr(ex, 'at_number'): ex.at_number(s2, n, v)
            for k in range(n): ex.wr(s2, Ptr(first.obj, add64(first.off, k)), 1, ds[k])
            res.append((s2, [Ptr(first.obj, add64(first.off, n)), 0]))
        return res or [(None, None)]
def prophecy(ex, st):
    out = Ptr(ex.new_obj(st, 'out', 8, 'ghost'), 0); P, L0 = ex.G.init_prophecy(ex, st, out, 'out'); E = z3.BitVec('final_length', 64); push = ex.G.push
    def p2(ex_, s, q, c):
        push(ex_, s, q, c)
        if q.obj == out.obj: s.assume(z3.ULE(b64(ex.G.L(s, q)), E))
    ex.G.push = p2; st.assume(z3.And(z3.ULE(L0, E), z3.ULT(E, 1 << 41))); return out, P, L0, E
def valid_text(sp, T, n):
    """VALID(i): from i on, the text is UTF-8 (two to four byte sequences denoting codes from 0x80, 0x800, 0x10000 on) without a literal &#"""
    F = [None]
    def unfold(i):
        f = F[0]; c = T(i); co = lambda k: (T(i + k) & 0xc0) == 0x80; inb = lambda k: z3.ULE(i + k, n); z = lambda x: z3.ZeroExt(24, x)
        v3 = (z(c & 0xf) << 12) | (z(T(i + 1) & 63) << 6) | z(T(i + 2) & 63); v4 = (z(c & 7) << 18) | (z(T(i + 1) & 63) << 12) | (z(T(i + 2) & 63) << 6) | z(T(i + 3) & 63)
        ref = z3.And(c == b8('&'), inb(2), T(i + 1) == b8('#'))
        return z3.If(z3.UGE(i, n), z3.BoolVal(True), z3.If(z3.ULT(c, 0x80), z3.And(z3.Not(ref), f(i + 1)),
            z3.If((c & 0xe0) == 0xc0, z3.And(inb(2), co(1), z3.UGE(c, 0xc2), f(i + 2)),
            z3.If((c & 0xf0) == 0xe0, z3.And(inb(3), co(1), co(2), z3.UGE(v3, 0x800), f(i + 3)),
            z3.And((c & 0xf8) == 0xf0, inb(4), co(1), co(2), co(3), z3.UGE(v4, 0x10000), z3.ULE(v4, 0x10ffff), f(i + 4))))))
    F[0] = sp.define('VALID', [W64], z3.BoolSort(), unfold); return F[0]
def settle(ex, s, c, what): ex.oblige(s, c, what); s.assume(c)
def text(ex, st, name='text'):
    n = z3.BitVec('n_' + name, 64); st.assume(z3.ULT(n, (1 << 31) - 64)); t = Ptr(ex.sym_bytes(st, name, n), 0); ex.hints = [('n', n)]; return t, n, ex.bytes_at(st, t)
def mangle(m):
    """any UTF-8 text (below 2^31-64 bytes, without &# in it), any earlier output: the decoding of what is appended is the text"""
    ex, st, sp = setup(m, merge_limit=0, depth=2, retry=60000, timeout=60000, confirm='^(decoded|VALID)'); charconv(ex); t, n, T = text(ex, st); out, P, L0, E = prophecy(ex, st); at = lambda i: z3.Select(P, i)
    DEC, DIG = decoder_(sp, 'DEC', at, E); LIST = prefix(sp, 'LIST', T); VALID = valid_text(sp, T, n); st.assume(VALID(b64(0))); D0 = DEC(L0, nil); box = {}; ex.unroll = [('mangleHttpResponse', 'inner')]
    def at_number(s, k, v): # steps towards the invariant, each an obligation of its own
        L = b64(ex.G.L(s, out)); i = box['i']
        for a in [DIG(L + j) for j in range(k + 1)] + [LIST(i + j) for j in range(1, 5)] + [VALID(i)]: s.assume(sp.axiom(a)) # instances of the definitions
        settle(ex, s, D0 == DEC(L - 6, LIST(i)), 'what precedes a character reference denotes the text before it')
        l = z3.If(z3.ULT(v, 0x800), b64(2), z3.If(z3.ULT(v, 0x10000), b64(3), b64(4)))
        settle(ex, s, z3.And(utf8(LIST(i), v) == LIST(i + l), v <= 0x10ffff), 'the number of the reference is the code of the character')
        s.ghost['reference'] = (L + k + 3, L, i + l, v)
    ex.at_number = at_number; push = ex.G.push
    def pushed(ex_, s, q, c):
        push(ex_, s, q, c)
        if s.ghost.get('reference') and q.obj == out.obj and ex_.inc_check(s.pc, b64(ex.G.L(s, out)) != s.ghost['reference'][0])[0] == 'unsat':
            L1, L, j, v = s.ghost['reference']; s.ghost['reference'] = None
            settle(ex, s, DEC(L - 6, LIST(box['i'])) == DEC(L1, utf8(LIST(box['i']), v)), 'the reference denotes its number')
            settle(ex, s, D0 == DEC(L1, LIST(j)), 'the reference denotes the character')
    ex.G.push = pushed; st.ghost['reference'] = None
    def cands(ex, entry, v0, ints, keys):
        o = []
        for k, G, w, p in ints:
            if w < 32: continue
            def inv(vw, G=G):
                i = b64(G(vw)); box['i'] = i; L = b64(ex.G.L(vw.st, out))
                one = z3.And(i >= 1, T(i - 1) == b8('&')); k = z3.If(one, b64(1), b64(0)) # a reference may have begun
                return z3.And(D0 == DEC(L - 3 * k, LIST(i - k)), z3.Implies(one, z3.And(z3.Not(z3.And(z3.ULT(i, n), T(i) == b8('#'))), *[at(L - 3 + j) == b8(c) for j, c in enumerate('%26')])), z3.UGE(L, L0 + 3 * k), sp.axiom(LIST(i))) # the last is an instance of the definition
            o.append((f'decoded({k[:3]})', inv)); o.append((f'VALID({k[:3]})', lambda vw, G=G: VALID(b64(G(vw)))))
        o.append(('L<=E', lambda vw: z3.And(z3.ULE(L0, b64(ex.G.L(vw.st, out))), z3.ULE(b64(ex.G.L(vw.st, out)), E))))
        return o
    ex.cand_hooks.append(cands)
    for s in call(ex, st, 'h_mangle', [out, t, n]):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'encoding does not throw'); continue
        s.assume(b64(ex.G.L(s, out)) == E); s.assume(sp.axiom(VALID(box['i']))); cover(ex, s, 'encoded'); ex.oblige(s, D0 == Res.ok(LIST(n), E), 'what was written denotes the text')
    need_covers(ex, 'encoded'); return ex
def demangle(m):
    """any bytes: the result is what they denote (if every escape is two hexadecimal digits and every reference a code point); safety and termination on all bytes"""
    ex, st, sp = setup(m, depth=2, inv_timeout=4000, retry=20000); charconv(ex); t, n, T = text(ex, st); out = Ptr(ex.new_obj(st, 'out', 8, 'ghost'), 0); ex.G.init_snoc(ex, st, out)
    DEC, DIG = decoder_(sp, 'DEC', T, n); D0 = DEC(b64(0), nil)
    def cands(ex, entry, v0, ints, keys):
        o = []
        for k, G, w, p in ints:
            if w < 32: continue
            o.append((f'DEC({k[:3]},out)', lambda vw, G=G: z3.Implies(D0 != Res.bad, D0 == DEC(b64(G(vw)), ex.G.B(vw.st, out)))))
            o.append((f'DIG({k[:3]})=DIG(init)', lambda vw, G=G: DIG(b64(G(vw))) == DIG(b64(G(v0)) - 1)))
            o.append((f'digits before {k[:3]}', lambda vw, G=G: z3.And(*[z3.Implies(z3.ULT(b64(G(v0)) - 1 + j, b64(G(vw))), digit(T(b64(G(v0)) - 1 + j))) for j in range(7)])))
        return o
    ex.cand_hooks.append(cands)
    for s in call(ex, st, 'h_demangle', [out, t, n]):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'decoding does not throw'); continue
        cover(ex, s, 'decoded'); ex.oblige(s, z3.Implies(D0 != Res.bad, D0 == Res.ok(ex.G.B(s, out), n)), 'the result is what the bytes denote')
    need_covers(ex, 'decoded'); return ex
PROOFS = [mangle, demangle]
LIMIT = 400
