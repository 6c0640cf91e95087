from blib import *
HARNESS = 'binary.cpp'; NATIVE = 'b01.cpp'
def write_int(m):
    """every integer type, every 64-bit value, any earlier output: the output grows by exactly the size of the type, with the low bytes of the value, least significant first"""
    ex, st0, sp = setup(m, fp='smt')
    for name, (w, sg) in INTS.items():
        st = st0.copy(); out, at, L0 = output(ex, st); v = z3.BitVec('v', 64)
        for s in call(ex, st, 'h_writeInt', [out, TYPES[name], v]):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'writing does not throw'); continue
            cover(ex, s, name); ex.oblige(s, z3.And(b64(ex.G.L(s, out)) == L0 + w // 8, le(at, L0, w // 8) == z3.Extract(w - 1, 0, v)), f'{name}: {w // 8} bytes, least significant first')
        need_covers(ex, name)
    return ex
def read_int(m):
    """every integer type, any input, any position: exactly the size of the type is consumed and the value is those bytes, sign- or zero-extended; ParseError exactly if fewer bytes are left"""
    ex, st0, sp = setup(m, fp='smt')
    for name, (w, sg) in INTS.items():
        st = st0.copy(); n, src, pos, p, S, end = source(ex, st); k = w // 8; room = z3.ULE(p + k, n)
        for s in call(ex, st, 'h_readInt', [src, n, pos, end, TYPES[name]]):
            if isinstance(s.result, Throw): ex.oblige(s, z3.And(z3.Not(room), z3.BoolVal('ParseError' in thrown(ex, s))), f'{name}: rejected only when cut off'); continue
            cover(ex, s, name); ex.oblige(s, z3.And(room, b64(s.result) == ext(le(S, p, k), sg), endpos(ex, s, end) == p + k), f'{name}: the value of the next {k} bytes')
        need_covers(ex, name)
    return ex
def write_float(m):
    """FLOAT_64 and FLOAT_32, any finite value: the IEEE 754 bytes of the value (rounded to the type), least significant first"""
    ex, st0, sp = setup(m, fp='smt')
    for name, w in (('FLOAT_64', 64), ('FLOAT_32', 32)):
        st = st0.copy(); out, at, L0 = output(ex, st); v = z3.BitVec('v', 64); d = z3.fpBVToFP(v, z3.Float64()); st.assume(z3.Not(z3.fpIsNaN(d)))
        want = v if w == 64 else z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), d, z3.Float32()))
        for s in call(ex, st, 'h_writeFloat', [out, TYPES[name], v]):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'writing does not throw'); continue
            cover(ex, s, name); ex.oblige(s, z3.And(b64(ex.G.L(s, out)) == L0 + w // 8, le(at, L0, w // 8) == want), f'{name}: {w // 8} bytes, least significant first')
        need_covers(ex, name)
    return ex
def read_float(m):
    """FLOAT_64 and FLOAT_32, any input: the value of the next bytes, ParseError exactly if fewer bytes are left"""
    ex, st0, sp = setup(m, fp='smt')
    for name, w in (('FLOAT_64', 64), ('FLOAT_32', 32), ('FLOAT_16', 16)):
        st = st0.copy(); n, src, pos, p, S, end = source(ex, st); k = w // 8; room = z3.ULE(p + k, n); raw = le(S, p, k)
        F = {64: z3.Float64(), 32: z3.Float32(), 16: z3.Float16()}[w]; f = z3.fpBVToFP(raw, F)
        for s in call(ex, st, 'h_readFloat', [src, n, pos, end, TYPES[name]]):
            if isinstance(s.result, Throw): ex.oblige(s, z3.And(z3.Not(room), z3.BoolVal('ParseError' in thrown(ex, s))), f'{name}: rejected only when cut off'); continue
            cover(ex, s, name); r = bv(s.result, 64)
            ex.oblige(s, z3.And(room, endpos(ex, s, end) == p + k), f'{name}: consumes {k} bytes')
            ex.oblige(s, z3.Or(z3.fpIsNaN(f), r == (raw if w == 64 else z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), f, z3.Float64())))), f'{name}: the value of the bytes')
        need_covers(ex, name)
    return ex
def half(m):
    """all 16-bit floats: the decoded value is the IEEE 754 half precision value of the bits; encoding it again gives the same bits; every float encodes to a half of the same sign that is not further from zero, or to infinity if it is too large"""
    ex, st0, sp = setup(m, fp='smt'); H, F = z3.Float16(), z3.Float32()
    st = st0.copy(); h = z3.BitVec('h', 16); hf = z3.fpBVToFP(h, H)
    for s in call(ex, st, 'h_fromHalf', [h]):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
        cover(ex, s, 'decode'); r = bv(s.result, 32)
        ex.oblige(s, z3.If(z3.fpIsNaN(hf), z3.fpIsNaN(z3.fpBVToFP(r, F)), r == z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), hf, F))), 'the value is that of the half precision bits')
    st = st0.copy(); f = z3.BitVec('f', 32); ff = z3.fpBVToFP(f, F)
    for s in call(ex, st, 'h_toHalf', [f]):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
        cover(ex, s, 'encode'); r = bv(s.result, 16); rf = z3.fpBVToFP(r, H)
        ex.oblige(s, z3.If(z3.fpIsNaN(ff), z3.fpIsNaN(rf), z3.Or(r == z3.fpToIEEEBV(z3.fpFPToFP(z3.RTZ(), ff, H)), z3.And(z3.fpIsInf(rf), z3.fpGEQ(z3.fpAbs(ff), z3.FPVal(65536.0, F)), z3.Extract(15, 15, r) == z3.Extract(31, 31, f)))), 'the bits are those of the value cut to half precision')
        ex.oblige(s, z3.Or(z3.fpIsNaN(hf), f != z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), hf, F)), r == h), 'a value of half precision is encoded exactly')
    need_covers(ex, 'decode', 'encode'); return ex
def write_half(m):
    """FLOAT_16: exactly the two bytes of the encoded half precision value"""
    ex, st, sp = setup(m, fp='smt'); out, at, L0 = output(ex, st); v = z3.BitVec('v', 64); h = z3.BitVec('h', 16); hf = z3.fpBVToFP(h, z3.Float16())
    st.assume(z3.And(z3.Not(z3.fpIsNaN(hf)), v == z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), hf, z3.Float64()))))
    for s in call(ex, st, 'h_writeFloat', [out, TYPES['FLOAT_16'], v]):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'writing does not throw'); continue
        cover(ex, s, 'half'); ex.oblige(s, z3.And(b64(ex.G.L(s, out)) == L0 + 2, le(at, L0, 2) == h), 'FLOAT_16: the two bytes of the value')
    need_covers(ex, 'half'); return ex
PROOFS = [write_int, read_int, write_float, read_float, half, write_half]
