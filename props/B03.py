from blib import *
HARNESS = 'binary.cpp'; NATIVE = 'b03.cpp'
def readers(m):
    """arbitrary bytes, any position, every numeric type and function: no access outside the input; either returns, standing behind what was consumed and still inside the input, or throws ParseError"""
    ex, st0, sp = setup(m, fp='smt')
    for fn, flags, extra in [('h_readInt', list(INTS), []), ('h_readFloat', ['FLOAT_16', 'FLOAT_32', 'FLOAT_64'], []), ('h_readBool', ['NONE', 'UINT_16'], []), ('h_readNull', ['NONE'], []), ('h_readOptional', ['NONE', 'INT_64', 'UINT_8'], ['value']), ('h_identify', ['NONE'], [])]:
        for f in flags:
            st = st0.copy(); n, src, pos, p, S, end = source(ex, st); val = Ptr(ex.new_obj(st, 'value', 8, 'out'), 0); ex.wr(st, val, 8, 0)
            for s in call(ex, st, fn, [src, n, pos, end, TYPES[f]] + ([val] if extra else [])):
                if isinstance(s.result, Throw): ex.oblige(s, z3.BoolVal('ParseError' in thrown(ex, s)), f'{fn[2:]} {f}: what cannot be read is reported as ParseError'); continue
                cover(ex, s, fn + f); e = endpos(ex, s, end); ex.oblige(s, z3.And(e >= p, z3.ULE(e, n)), f'{fn[2:]} {f}: the position stays inside the input')
                if fn == 'h_identify': ex.oblige(s, z3.And(bv(s.result, 32) == 7, e == p), 'types are not identified and nothing is consumed')
            need_covers(ex, fn + f)
    return ex
def strings(m):
    """arbitrary bytes, every size type, also signed ones: the text returned lies inside the input, or ParseError is thrown"""
    ex, st0, sp = setup(m, fp='smt')
    for N in ('8', '16', '32', '64'):
        for f in ('NONE', 'INT_8', 'INT_16', 'INT_32', 'INT_64', 'UINT_64', 'UINT_32'):
            st = st0.copy(); n, src, pos, p, S, end = source(ex, st); lp = Ptr(ex.new_obj(st, 'len', 8, 'out'), 0); ex.wr(st, lp, 8, 0)
            for s in call(ex, st, 'h_readString' + N, [src, n, pos, end, TYPES[f], lp]):
                if isinstance(s.result, Throw): ex.oblige(s, z3.BoolVal('ParseError' in thrown(ex, s)), f'readString{N} {f}: what cannot be read is reported as ParseError'); continue
                cover(ex, s, N + f); e = endpos(ex, s, end); ln = bv(ex.rd(s, lp, 8, 'i64'), 64); r = s.result
                ex.oblige(s, z3.And(e >= p, z3.ULE(e, n)), f'readString{N} {f}: the position stays inside the input')
                if r.obj == src.obj: ex.oblige(s, z3.And(z3.ULE(b64(r.off), n), z3.ULE(ln, n - b64(r.off))), f'readString{N} {f}: the text lies inside the input')
                else: ex.oblige(s, ln == 0, f'readString{N} {f}: a text from elsewhere is empty')
            need_covers(ex, N + f)
    return ex
def nesting(m):
    """arbitrary bytes, arrays opened inside each other up to five deep: within the depth of the format every level is read; deeper nesting is refused with logic_error, cut input with ParseError; no access outside the input or the sizes of the levels"""
    ex, st0, sp = setup(m, fp='smt')
    for N, k in (('8', 1), ('16', 2), ('32', 4), ('64', 8), ('s', 4)):
        for depth in range(1, 6) if N == '16' else (1, 2):
            st = st0.copy(); n, src, pos, p, S, end = source(ex, st); w = f'{depth} levels, size type {N}'
            for s in call(ex, st, 'h_nested' + N, [src, n, pos, end, 0, depth]):
                e = endpos(ex, s, end)
                if isinstance(s.result, Throw): ex.oblige(s, z3.BoolVal('ParseError' in thrown(ex, s)) if depth <= 3 else z3.BoolVal(any(x in thrown(ex, s) for x in ('ParseError', 'logic_error'))), w + ': reported'); continue
                cover(ex, s, w); ex.oblige(s, z3.And(z3.BoolVal(depth <= 3), e == p + k * depth, z3.ULE(e, n)), w + ': the sizes of all levels are read')
            if depth <= 3: need_covers(ex, w)
    return ex
def objects(m):
    """arbitrary bytes, every size type: names handed to the member callback lie inside the input; the position never leaves it; only ParseError is thrown"""
    ex, st0, sp = setup(m)
    @ex.contracts_front.on(r'^v_onMember$')
    def vm(ex, s, a, I):
        "member callback: any answer"
        named, name, size, index, at, stopped = a
        if name.obj is not None and name.obj != ex.cur['obj']: ex.oblige(s, b64(size) == 0, 'a name from elsewhere is empty')
        elif name.obj is not None: ex.oblige(s, z3.And(z3.ULE(b64(name.off), ex.cur['n']), z3.ULE(b64(size), ex.cur['n'] - b64(name.off))), 'the name lies inside the input')
        ex.oblige(s, z3.And(bv(at, 32) >= 0, z3.SignExt(32, bv(at, 32)) <= ex.cur['n']), 'the position stays inside the input')
        s.ghost['count'] = s.ghost['count'] + 1; s.assume(s.ghost['count'] < (1 << 31) - 2); return z3.Bool(fresh_name('go'))
    @ex.contracts_front.on(r'^v_moved$')
    def mv(ex, s, a, I):
        "user code between two calls: any position in the input"
        new = z3.BitVec(fresh_name('moved'), 32); s.assume(z3.And(new >= 0, z3.SignExt(32, new) <= ex.cur['n'])); return new
    def cands(ex, entry, v0, ints, keys):
        o = [('fewer than 2^31 members', lambda vw: z3.And(vw.st.ghost['count'] >= 0, vw.st.ghost['count'] < (1 << 31) - 2))]
        for k, G, w, pp in ints:
            if w >= 32: o.append((f'{k[:3]} in range', lambda vw, G=G: z3.And(b64(G(vw)) >= 0, b64(G(vw)) <= ex.cur['n']))); o.append((f'{k[:3]}=count', lambda vw, G=G: z3.Extract(31, 0, b64(G(vw))) == vw.st.ghost['count']))
        return o
    ex.cand_hooks = [cands]
    for N in ('8', '16', '32', '64'):
        for f in (0, TYPES['INT_8'], TYPES['INT_64'], LAYOUT):
            st = st0.copy(); n, src, pos, p, S, end = source(ex, st); ex.cur = dict(n=n, obj=src.obj); st.ghost['count'] = z3.BitVecVal(0, 32)
            for s in call(ex, st, 'h_readObject' + N, [src, n, pos, end, f]):
                e = endpos(ex, s, end)
                if isinstance(s.result, Throw): ex.oblige(s, z3.BoolVal('ParseError' in thrown(ex, s)), 'what cannot be read is reported as ParseError'); continue
                cover(ex, s, N + str(f)); ex.oblige(s, z3.And(e >= 0, e <= n), 'the position stays inside the input')
            need_covers(ex, N + str(f))
    return ex
PROOFS = [readers, strings, nesting, objects]
