from jlib import *
HARNESS = 'json.cpp'; NATIVE = 'j02.cpp'
def writer(k, fn):
    def proof(m):
        ex, st, sp = setup(m); N = Numbers(ex.contracts_front)
        v = z3.BitVec('v', 64); out = ex.new_obj(st, 'out', 8, 'ghost'); P, L0 = ex.G.init_prophecy(ex, st, Ptr(out, 0), 'out')
        for s in call(ex, st, fn, [Ptr(out, 0), v]):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'writing a number does not throw'); continue
            cover(ex, s, 'written'); L = b64(ex.G.L(s, Ptr(out, 0)))
            ex.oblige(s, L == L0 + N.len[k](v), 'the output grows by exactly the literal')
            ex.oblige(s, z3.And(*[z3.Implies(z3.ULT(j, N.len[k](v)), z3.Select(P, L0 + j) == N.byte[k](v, b64(j))) for j in range(N.max[k])]), 'the output is the literal of the number')
        need_covers(ex, 'written'); return ex
    return proof
def reader(k, fn):
    def proof(m):
        ex, st, sp = setup(m); N = Numbers(ex.contracts_front)
        n, src, pos, p, S, end = source(ex, st); WS = scan(sp, 'WS', S, n, is_ws); NUM = scan(sp, 'NUM', S, n, numchar)
        v = z3.BitVec('v', 64); q = z3.BitVec('q', 64); st.assume(q == WS(p)); ex.numbers = [(v, src.obj, q, n)]
        st.assume(z3.And(z3.ULT(q, n), N.at(k, v, lambda i: S(q + i), n - q)))
        ex.cand_hooks.append(positions(lambda ex: [('WS=WS(p)', lambda vw, x: WS(x) == q), ('NUM=', lambda vw, x: NUM(x) == NUM(q + N.len[k](v)))])); ex.cand_hooks.append(chars(S, n))
        for s in call(ex, st, fn, [src, n, pos, end]):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'a literal written by the writer is accepted'); continue
            cover(ex, s, 'read')
            ex.oblige(s, b64(s.result) == v, 'the value read is the value the literal denotes')
            ex.oblige(s, z3.SignExt(32, bv(ex.rd(s, end, 4, 'i32'), 32)) == NUM(q + N.len[k](v)), 'reading stops behind the literal and whatever fraction or exponent follows it')
        need_covers(ex, 'read'); return ex
    return proof
writeInt = writer('l', 'h_writeInt'); writeFloat = writer('d', 'h_writeFloat')
def write_int(m):
    """requires: any 64-bit integer, any earlier output; ensures: the output grows by exactly its literal (as std::to_chars defines it)"""
    return writeInt(m)
def write_float(m):
    """requires: any double, any earlier output; ensures: the output grows by exactly its literal (as std::to_chars defines it, up to 24 characters)"""
    return writeFloat(m)
readInt = reader('l', 'h_readInt'); readFloat = reader('d', 'h_readFloat')
def read_int(m):
    """requires: any document with the literal of v behind any separators, followed by the end or anything that does not continue it; ensures: v is returned and the position is behind the literal"""
    return readInt(m)
def read_float(m):
    """as read_int, for doubles"""
    return readFloat(m)
def words(m):
    """write true/false/null, optional present/absent: exactly these words are appended"""
    ex, st0, sp = setup(m)
    for fn, argf, word in (('h_writeBool', [True], 'true'), ('h_writeBool', [False], 'false'), ('h_writeNull', [], 'null'), ('h_writeOptional', [False, True], 'null'), ('h_writeOptional', [True, True], 'true'), ('h_writeOptional', [True, False], 'false')):
        st = st0.copy(); out = ex.new_obj(st, 'out', 8, 'ghost'); P, L0 = ex.G.init_prophecy(ex, st, Ptr(out, 0), 'out')
        for s in call(ex, st, fn, [Ptr(out, 0)] + argf):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'writing does not throw'); continue
            cover(ex, s, fn + word); L = b64(ex.G.L(s, Ptr(out, 0)))
            ex.oblige(s, z3.And(L == L0 + len(word), *[z3.Select(P, L0 + j) == b8(c) for j, c in enumerate(word)]), f'{fn} appends {word}')
        need_covers(ex, fn + word)
    return ex
def wordat(S, q, n, w): return z3.And(z3.ULE(q + len(w), n), *[S(q + j) == b8(c) for j, c in enumerate(w)])
def read_words(m):
    """any document, any position: readBool returns normally iff the bytes behind the separators are true or false, with that value; readNull iff they are null; position is behind the word; readOptional calls the reader iff the value is not null"""
    ex, st0, sp = setup(m)
    for fn in ('h_readBool', 'h_readNull', 'h_readOptional'):
        st = st0.copy(); n, src, pos, p, S, end = source(ex, st); WS = scan(sp, 'WS' + fn, S, n, is_ws); q = WS(p)
        ex.cand_hooks = [positions(lambda ex: [('WS=WS(p)', lambda vw, x: WS(x) == q)]), chars(S, n)]
        T, F, N = wordat(S, q, n, 'true'), wordat(S, q, n, 'false'), wordat(S, q, n, 'null')
        args = [src, n, pos, end]; val = Ptr(ex.new_obj(st, 'value', 1, 'out'), 0); ex.wr(st, val, 1, 0)
        if fn == 'h_readOptional': args.append(val)
        for s in call(ex, st, fn, args):
            if isinstance(s.result, Throw):
                ex.oblige(s, z3.Not({'h_readBool': z3.Or(T, F), 'h_readNull': N, 'h_readOptional': z3.Or(T, F, N)}[fn]), fn + ' does not reject a valid word'); continue
            cover(ex, s, fn); e = z3.SignExt(32, bv(ex.rd(s, end, 4, 'i32'), 32)); r = s.result
            if fn == 'h_readBool': ex.oblige(s, z3.Or(z3.And(T, zb(r), e == q + 4), z3.And(F, z3.Not(zb(r)), e == q + 5)), 'readBool returns the value of the word and stops behind it')
            elif fn == 'h_readNull': ex.oblige(s, z3.And(N, e == q + 4), 'readNull accepts only null and stops behind it')
            else:
                v = ex.rd(s, val, 1, 'i8')
                ex.oblige(s, z3.Or(z3.And(N, z3.Not(zb(r)), e == q + 4), z3.And(T, zb(r), bv(v, 8) == 1, e == q + 4), z3.And(F, zb(r), bv(v, 8) == 0, e == q + 5)), 'readOptional reads the value or null')
        need_covers(ex, fn)
    return ex
def identify(m):
    """any document, any position: the type follows from the first character behind the separators, for numbers from whether '.', 'e' or 'E' ends the digits"""
    ex, st, sp = setup(m); n, src, pos, p, S, end = source(ex, st); WS = scan(sp, 'WS', S, n, is_ws); q = WS(p); DIG = scan(sp, 'DIG', S, n, digit)
    ex.cand_hooks = [positions(lambda ex: [('WS=WS(p)', lambda vw, x: WS(x) == q), ('DIG=', lambda vw, x: DIG(x) == DIG(q + 1)), ('WS(p)<', lambda vw, x: z3.And(z3.ULT(q, x), z3.ULE(x, n)))]), chars(S, n)]
    c = S(q); d = DIG(q + 1); fl = z3.And(z3.ULT(d, n), z3.Or(S(d) == b8('.'), S(d) == b8('e'), S(d) == b8('E')))
    T = dict(INTEGER=0, FLOAT=1, STRING=2, BOOLEAN=3, NULL=4, ARRAY=5, OBJECT=6, INVALID=7)
    want = z3.If(z3.UGE(q, n), z3.BitVecVal(T['INVALID'], 32), z3.If(c == b8('"'), T['STRING'], z3.If(z3.Or(c == b8('-'), digit(c)), z3.If(fl, z3.BitVecVal(T['FLOAT'], 32), z3.BitVecVal(T['INTEGER'], 32)), z3.If(c == b8('n'), T['NULL'],
        z3.If(z3.Or(c == b8('t'), c == b8('f')), T['BOOLEAN'], z3.If(c == b8('['), T['ARRAY'], z3.If(c == b8('{'), T['OBJECT'], z3.BitVecVal(T['INVALID'], 32))))))))
    for s in call(ex, st, 'h_identify', [src, n, pos, end]):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'identifyType does not throw'); continue
        cover(ex, s, 'identified')
        ex.oblige(s, bv(s.result, 32) == want, 'the type follows the text'); ex.oblige(s, z3.SignExt(32, bv(ex.rd(s, end, 4, 'i32'), 32)) == q, 'only separators are consumed')
    need_covers(ex, 'identified'); return ex
PROOFS = [write_int, write_float, read_int, read_float, words, read_words, identify]
