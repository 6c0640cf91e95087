from blib import *
HARNESS = 'binary.cpp'; NATIVE = 'b02.cpp'
SIZES = [('8', 8, False), ('16', 16, False), ('32', 32, False), ('64', 64, True)]
FLAGS = [('NONE', None)] + [(k, INTS[k]) for k in ('UINT_8', 'UINT_16', 'INT_32', 'UINT_64')]
def sizes(): # (suffix, flags, size width in bits, signed): the size type of the format unless the flags name another
    for N, w, sg in SIZES:
        for name, spec in FLAGS:
            if N in ('8', '64') and name not in ('NONE', 'UINT_16'): continue
            yield N, TYPES[name], (spec or (w, sg))[0], (spec or (w, sg))[1], f'{N}-bit sizes, flags {name}'
def fits(v, w, sg): return z3.ULT(v, 1 << (w - (1 if sg else 0))) if w < 64 else v >= 0
def text(ex, st, w, sg):
    n = z3.BitVec('length', 64); st.assume(z3.And(z3.ULT(n, 1 << 31), fits(n, w, sg))); o = ex.sym_bytes(st, 'text', n, ro=True); ex.hints = [('length', n)]
    return n, Ptr(o, 0), ex.bytes_at(st, Ptr(o, 0))
def written(ex, s, out, at, L0, n, T, w, what):
    i = z3.BitVec(fresh_name('i'), 64)
    ex.oblige(s, z3.And(b64(ex.G.L(s, out)) == L0 + w // 8 + n, le(at, L0, w // 8) == z3.Extract(w - 1, 0, n)), what + ': the length and as many bytes are appended')
    s2 = s.copy(); s2.assume(z3.ULT(i, n)); ex.oblige(s2, at(L0 + w // 8 + i) == bv(T(i), 8), what + ': the bytes are those of the text')
def write_string(m):
    """any text whose length fits the size type: the length in that type, then exactly the bytes of the text; the same for member names"""
    ex, st0, sp = setup(m)
    for N, fl, w, sg, what in sizes():
        for fn, extra in (('h_writeString', []), ('h_writeMember', [z3.BitVec('index', 32)])):
            st = st0.copy(); out, at, L0 = output(ex, st); n, p, T = text(ex, st, w, sg)
            for s in call(ex, st, fn + N, [out, fl, p, n] + extra):
                if isinstance(s.result, Throw): ex.oblige(s, False, 'writing does not throw'); continue
                cover(ex, s, fn + N); written(ex, s, out, at, L0, n, T, w, fn[2:] + ', ' + what)
            need_covers(ex, fn + N)
    return ex
def write_frames(m):
    """starting an array or object appends exactly its number of elements in the size type; elements, ends, nulls and objects of known layout append nothing; an unknown size is refused"""
    ex, st0, sp = setup(m)
    for N, fl, w, sg, what in sizes():
        for fn in ('h_writeArray', 'h_writeObject'):
            st = st0.copy(); out, at, L0 = output(ex, st); c = z3.BitVec('count', 32); st.assume(z3.Or(c == -1, z3.And(c >= 0, fits(z3.SignExt(32, c), w, sg))))
            for s in call(ex, st, fn + N, [out, fl, c]):
                if isinstance(s.result, Throw): ex.oblige(s, z3.And(c == -1, b64(ex.G.L(s, out)) == L0), what + ': only an unknown size is refused'); continue
                cover(ex, s, fn + N); ex.oblige(s, z3.And(c != -1, b64(ex.G.L(s, out)) == L0 + w // 8, le(at, L0, w // 8) == (z3.Extract(w - 1, 0, c) if w <= 32 else z3.SignExt(32, c))), f'{fn[2:]}, {what}: exactly the number of elements')
            need_covers(ex, fn + N)
        st = st0.copy(); out, at, L0 = output(ex, st); c = z3.BitVec('count', 32); n, p, T = text(ex, st, w, sg)
        for fn, a in (('h_writeObject', [c]), ('h_writeMember', [p, n, c])):
            for s in call(ex, st.copy(), fn + N, [out, fl | LAYOUT] + a): ex.oblige(s, z3.And(z3.BoolVal(not isinstance(s.result, Throw)), b64(ex.G.L(s, out)) == L0), f'{fn[2:]}, {what}: nothing is written for a known layout')
    st = st0.copy(); out, at, L0 = output(ex, st)
    for s in call(ex, st, 'h_writeNull', [out, 0]): ex.oblige(s, z3.And(z3.BoolVal(not isinstance(s.result, Throw)), b64(ex.G.L(s, out)) == L0), 'null is written as nothing')
    return ex
def bools(m):
    """booleans are one byte, 0 or 1, whatever the flags; an optional is a boolean and, if it is true, the value; reading them consumes exactly these and returns the value"""
    ex, st0, sp = setup(m, fp='smt')
    for name, (w, sg) in INTS.items():
        fl = TYPES[name]; st = st0.copy(); out, at, L0 = output(ex, st); b = z3.Bool('b'); v = z3.BitVec('v', 64)
        for s in call(ex, st.copy(), 'h_writeBool', [out, fl, b]):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'writing does not throw'); continue
            cover(ex, s, 'wb'); ex.oblige(s, z3.And(b64(ex.G.L(s, out)) == L0 + 1, at(L0) == z3.If(b, b8(1), b8(0))), f'flags {name}: a boolean is one byte')
        for s in call(ex, st.copy(), 'h_writeOptional', [out, fl, b, v]):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'writing does not throw'); continue
            cover(ex, s, 'wo'); ex.oblige(s, z3.And(at(L0) == z3.If(b, b8(1), b8(0)), b64(ex.G.L(s, out)) == L0 + 1 + z3.If(b, b64(w // 8), b64(0)), z3.Implies(b, le(at, L0 + 1, w // 8) == z3.Extract(w - 1, 0, v))), f'flags {name}: an optional is a boolean and the value if present')
        st = st0.copy(); n, src, pos, p, S, end = source(ex, st); val = Ptr(ex.new_obj(st, 'value', 8, 'out'), 0); ex.wr(st, val, 8, 0); k = w // 8
        for s in call(ex, st.copy(), 'h_readBool', [src, n, pos, end, fl]):
            if isinstance(s.result, Throw): ex.oblige(s, z3.Not(z3.ULT(p, n)), 'a boolean is rejected only at the end'); continue
            cover(ex, s, 'rb'); ex.oblige(s, z3.And(z3.ULT(p, n), zb(s.result) == (S(p) != 0), endpos(ex, s, end) == p + 1), f'flags {name}: a boolean is read from one byte')
        for s in call(ex, st.copy(), 'h_readOptional', [src, n, pos, end, fl, val]):
            if isinstance(s.result, Throw): ex.oblige(s, z3.Not(z3.And(z3.ULT(p, n), z3.Or(S(p) == 0, z3.ULE(p + 1 + k, n)))), 'an optional is rejected only when cut off'); continue
            cover(ex, s, 'ro'); ex.oblige(s, z3.If(S(p) == 0, z3.And(z3.Not(zb(s.result)), endpos(ex, s, end) == p + 1, bv(ex.rd(s, val, 8, 'i64'), 64) == 0), z3.And(zb(s.result), endpos(ex, s, end) == p + 1 + k, bv(ex.rd(s, val, 8, 'i64'), 64) == ext(le(S, p + 1, k), sg))), f'flags {name}: the value is read exactly if it is present')
        for s in call(ex, st.copy(), 'h_readNull', [src, n, pos, end, fl]): ex.oblige(s, z3.And(z3.BoolVal(not isinstance(s.result, Throw)), endpos(ex, s, end) == p), 'null is read from nothing')
    need_covers(ex, 'wb', 'wo', 'rb', 'ro'); return ex
def read_string(m):
    """any input, any position: the text of as many bytes as the size in front of it says, in place; the position is right behind it; ParseError exactly if the input is cut off"""
    ex, st0, sp = setup(m)
    for N, fl, w, sg, what in sizes():
        st = st0.copy(); n, src, pos, p, S, end = source(ex, st); k = w // 8; ln = ext(le(S, p, k), sg); lp = Ptr(ex.new_obj(st, 'len', 8, 'out'), 0); ex.wr(st, lp, 8, 0)
        room = z3.And(z3.ULE(p + k, n), ln >= 0, ln <= n - p - k)
        for s in call(ex, st, 'h_readString' + N, [src, n, pos, end, fl, lp]):
            if isinstance(s.result, Throw): ex.oblige(s, z3.And(z3.Not(room), z3.BoolVal('ParseError' in thrown(ex, s))), what + ': rejected only when cut off'); continue
            cover(ex, s, what); r = s.result
            ex.oblige(s, z3.And(room, endpos(ex, s, end) == p + k + ln, bv(ex.rd(s, lp, 8, 'i64'), 64) == ln, z3.BoolVal(r.obj == src.obj) , (b64(r.off) == p + k) if r.obj == src.obj else ln == 0), what + ': exactly the text behind its size')
        need_covers(ex, what)
    return ex
def read_array(m):
    """any input: an array starts with its number of elements; as many elements are announced as were written (an array always has a first element), and nothing else is consumed"""
    ex, st0, sp = setup(m)
    for N, fl, w, sg, what in sizes():
        st = st0.copy(); n, src, pos, p, S, end = source(ex, st); k = w // 8; ln = ext(le(S, p, k), sg); room = z3.ULE(p + k, n); st.assume(z3.Implies(room, z3.And(ln >= 0, ln < (1 << 31) - 1)))
        want = z3.If(ln > 0, z3.Extract(31, 0, ln), z3.BitVecVal(1, 32))
        def cands(ex, entry, v0, ints, keys):
            o = []
            for a, G, wa, _ in ints:
                for b, H, wb, _ in ints:
                    if a == b or wa != 32 or wb != 32: continue
                    o.append((f'{a[:3]}+{b[:3]}=want', lambda vw, G=G, H=H: z3.And(b64(G(vw)) + b64(H(vw)) == ln + 1, b64(G(vw)) >= 1, z3.Or(b64(H(vw)) >= 1, b64(G(vw)) == 1))))
            return o
        ex.cand_hooks = [cands]
        for s in call(ex, st, 'h_readArray' + N, [src, n, pos, end, fl]):
            if isinstance(s.result, Throw): ex.oblige(s, z3.And(z3.Not(room), z3.BoolVal('ParseError' in thrown(ex, s))), what + ': rejected only when cut off'); continue
            cover(ex, s, what); ex.oblige(s, z3.And(room, endpos(ex, s, end) == p + k), what + ': exactly the number of elements is consumed')
            ex.oblige(s, bv(s.result, 32) == want, what + ': as many elements are announced as the array has')
        need_covers(ex, what)
    return ex
def read_inner(m):
    """any outer array and any inner array inside of it (and the same inside of a third one), of which any part is read: ending the inner one leaves the outer one as it was: as many elements of it are announced as it has"""
    ex, st0, sp = setup(m)
    @ex.contracts_front.on(r'^v_more$')
    def more(ex, s, a, I): "the user goes on or stops"; return z3.Bool(fresh_name('more'))
    for N, fl, w, sg, what in sizes():
        if what.split()[-1] not in ('NONE', 'UINT_16'): continue
        for third in (False, True):
            st = st0.copy(); n, src, pos, p, S, end = source(ex, st); k = w // 8; ln = ext(le(S, p, k), sg); room = z3.ULE(p + k, n); q, r = z3.BitVecs('inner outermost', 32)
            def ok(at): a = z3.SignExt(32, at); l = ext(le(S, a, k), sg); return z3.And(at >= 0, z3.ULE(a + k, n), l >= 0, l < (1 << 31) - 1)
            st.assume(z3.And(ok(pos), ok(q), ok(r)))
            def cands(ex, entry, v0, ints, keys):
                return [(f'{a[:3]}+{b[:3]}=want', lambda vw, G=G, H=H: z3.And(b64(G(vw)) + b64(H(vw)) == ln + 1, b64(G(vw)) >= 1, z3.Or(b64(H(vw)) >= 1, b64(G(vw)) == 1))) for a, G, wa, _ in ints for b, H, wb, _ in ints if a != b and wa == 32 and wb == 32]
            ex.cand_hooks = [cands]; w2 = what + (', third level' if third else '')
            for s in call(ex, st, 'h_readInner' + N, [src, n, pos, end, fl, q, r, 1 if third else 0]):
                if isinstance(s.result, Throw): ex.oblige(s, False, w2 + ': reading does not throw'); continue
                cover(ex, s, w2); ex.oblige(s, bv(s.result, 32) == z3.If(ln > 0, z3.Extract(31, 0, ln), z3.BitVecVal(1, 32)), w2 + ': the outer array is not affected by the inner one')
            need_covers(ex, w2)
    return ex
def read_object(m):
    """any input, a member callback that leaves any position further on and may stop: every member is announced once, in order, with the name in front of it and the position behind the name, until all are read or the callback stops; members of a known layout are announced without names until the callback stops"""
    ex, st0, sp = setup(m)
    @ex.contracts_front.on(r'^v_onMember$')
    def vm(ex, s, a, I):
        "member callback: any answer"
        named, name, size, index, at, stopped = a; g = s.ghost; at64 = z3.SignExt(32, bv(at, 32)); k, S, n = ex.cur['k'], ex.cur['S'], ex.cur['n']
        ex.oblige(s, zb(bv(index, 32) == g['count']), 'members are numbered consecutively from 0'); ex.oblige(s, g['stop'] == 0, 'no member is announced after the callback asked to stop')
        if ex.cur['layout']: ex.oblige(s, z3.And(z3.Not(zb(named)), at64 == g['prev']), 'members of a known layout have no names and consume nothing')
        else:
            ln = ext(le(S, g['prev'], k), ex.cur['sg'])
            ex.oblige(s, z3.And(zb(named), z3.ULE(g['prev'] + k, n), ln >= 0, b64(size) == ln, at64 == g['prev'] + k + ln), 'the callback stands right behind the name of the member')
            ex.oblige(s, z3.BoolVal(name.obj == ex.cur['obj']) if name.obj != ex.cur['obj'] else b64(name.off) == g['prev'] + k, 'the name is the one in front of the member')
        go = z3.Bool(fresh_name('go'))
        if ex.cur['layout']: s.assume(z3.Implies(go, g['count'] < (1 << 31) - 2))   # fewer than 2^31 members
        g['count'] = g['count'] + 1; g['stop'] = z3.If(go, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8)); return go
    @ex.contracts_front.on(r'^v_moved$')
    def mv(ex, s, a, I):
        "user code between two calls: any position further on"
        at = z3.SignExt(32, bv(a[0], 32)); new = z3.BitVec(fresh_name('moved'), 32); n64 = z3.SignExt(32, new); s.assume(z3.And(n64 >= at, n64 <= ex.cur['n'])); s.ghost['prev'] = n64; return new
    def cands(ex, entry, v0, ints, keys):
        o = []
        for k, G, w, pp in ints:
            if w < 32: continue
            o.append((f'{k[:3]}=prev', lambda vw, G=G: b64(G(vw)) == vw.st.ghost['prev'])); o.append((f'{k[:3]}=count', lambda vw, G=G: z3.Extract(31, 0, b64(G(vw))) == vw.st.ghost['count']))
        o.append(('prev in range', lambda vw: z3.And(vw.st.ghost['prev'] >= 0, vw.st.ghost['prev'] <= ex.cur['n']))); o.append(('not stopped', lambda vw: vw.st.ghost['stop'] == 0)); o.append(('count<=size', lambda vw: z3.And(vw.st.ghost['count'] >= 0, z3.SignExt(32, vw.st.ghost['count']) <= ex.cur['ln'])))
        return o
    ex.cand_hooks = [cands]
    for N, fl, w, sg, what in sizes():
        for layout in (False, True):
            st = st0.copy(); n, src, pos, p, S, end = source(ex, st); k = w // 8; ln = ext(le(S, p, k), sg); room = z3.ULE(p + k, n)
            st.assume(z3.Implies(room, ln < (1 << 31) - 1)); w2 = what + (', known layout' if layout else '')
            ex.cur = dict(k=k, S=S, n=n, sg=sg, layout=layout, obj=src.obj, ln=z3.BitVecVal(1 << 30, 64) if layout else z3.If(ln > 0, ln, b64(0)))
            st.ghost['prev'] = p if layout else p + k; st.ghost['count'] = z3.BitVecVal(0, 32); st.ghost['stop'] = z3.BitVecVal(0, 8)
            if layout: ex.cand_hooks = [cands]
            for s in call(ex, st, 'h_readObject' + N, [src, n, pos, end, fl | (LAYOUT if layout else 0)]):
                g = s.ghost; e = endpos(ex, s, end)
                if isinstance(s.result, Throw): ex.oblige(s, z3.BoolVal('ParseError' in thrown(ex, s) and not layout), w2 + ': only a cut input is rejected'); continue
                cover(ex, s, w2); ex.oblige(s, e == g['prev'], w2 + ': the object ends where the last member ends')
                ex.oblige(s, z3.Or(g['stop'] == 1, z3.SignExt(32, g['count']) == z3.If(ln > 0, ln, b64(0))) if not layout else g['stop'] == 1, w2 + ': every member is announced unless the callback stops')
            need_covers(ex, w2)
    return ex
PROOFS = [write_string, write_frames, bools, read_string, read_array, read_inner, read_object]
