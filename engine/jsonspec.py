"""RFC 8259 string literals as a specification function."""
from spec import *
Res = z3.Datatype('DecRes'); Res.declare('bad'); Res.declare('ok', ('val', Bytes), ('end', W64)); Res = Res.create()
def hexv(c):
    d = z3.And(z3.UGE(c, 48), z3.ULE(c, 57)); l = z3.And(z3.UGE(c, 97), z3.ULE(c, 102)); u = z3.And(z3.UGE(c, 65), z3.ULE(c, 70))
    ok = z3.Or(d, l, u); z = lambda x: z3.ZeroExt(24, x)
    return ok, z3.If(d, z(c - 48), z3.If(l, z(c - 87), z(c - 55)))
def ext(x): return z3.Extract(7, 0, x)
def utf8(acc, cp):
    B = lambda x: ext(x)
    return z3.If(z3.ULT(cp, 0x80), snoc(acc, B(cp)),
      z3.If(z3.ULT(cp, 0x800), snoc(snoc(acc, B(0xc0 | z3.LShR(cp, 6))), B(0x80 | (cp & 0x3f))),
      z3.If(z3.ULT(cp, 0x10000), snoc(snoc(snoc(acc, B(0xe0 | z3.LShR(cp, 12))), B(0x80 | (z3.LShR(cp, 6) & 0x3f))), B(0x80 | (cp & 0x3f))),
        snoc(snoc(snoc(snoc(acc, B(0xf0 | z3.LShR(cp, 18))), B(0x80 | (z3.LShR(cp, 12) & 0x3f))), B(0x80 | (z3.LShR(cp, 6) & 0x3f))), B(0x80 | (cp & 0x3f))))))
def decoder(spec, name, rd, end=None):
    """RFC 8259 string decoding from just behind the opening quote: DEC(p, acc)"""
    def unfold(p, acc):
        c = rd(p)
        e = rd(p + 1)
        simple = z3.BoolVal(False); val = b8(0)
        for a, b in (('"', '"'), ('\\', '\\'), ('/', '/'), ('b', 8), ('f', 12), ('n', 10), ('r', 13), ('t', 9)):
            simple = z3.Or(simple, e == b8(a)); val = z3.If(e == b8(a), b8(b), val)
        def hex4(q):
            oks, v = [], z3.BitVecVal(0, 32)
            for j in range(4):
                o, h = hexv(rd(q + j)); oks.append(o); v = (v << 4) | h
            return z3.And(*oks), v
        ok1, u1 = hex4(p + 2)
        ok2, u2 = hex4(p + 8)
        hi = z3.And(z3.UGE(u1, 0xd800), z3.ULT(u1, 0xdc00)); lo2 = z3.And(z3.UGE(u2, 0xdc00), z3.ULT(u2, 0xe000))
        pair = 0x10000 + ((u1 - 0xd800) << 10) + (u2 - 0xdc00)
        bad = Res.bad
        inb = (lambda k: z3.ULT(p + k, end) if end is not None else z3.BoolVal(True))
        f = spec_f[0]
        lone = z3.And(z3.UGE(u1, 0xdc00), z3.ULT(u1, 0xe000))
        uni = z3.If(z3.And(inb(5), ok1), z3.If(hi, z3.If(z3.And(inb(11), rd(p + 6) == b8('\\'), rd(p + 7) == b8('u'), ok2, lo2), f(p + 12, utf8(acc, pair)), bad), z3.If(lone, bad, f(p + 6, utf8(acc, u1)))), bad)
        return z3.If(z3.Not(inb(0)), bad, z3.If(c == b8('"'), Res.ok(acc, p + 1),
            z3.If(z3.ULT(c, 0x20), bad,
            z3.If(c == b8('\\'), z3.If(z3.Not(inb(1)), bad, z3.If(simple, f(p + 2, snoc(acc, val)), z3.If(e == b8('u'), uni, bad))),
              f(p + 1, snoc(acc, c))))))
    spec_f = [None]
    spec_f[0] = spec.define(name, [W64, Bytes], Res, unfold)
    return spec_f[0]
def prefix(spec, name, rd):
    """LIST(i): the first i bytes as a ghost list"""
    F = [None]
    F[0] = spec.define(name, [W64], Bytes, lambda i: z3.If(i == 0, nil, snoc(F[0](i - 1), rd(i - 1))))
    return F[0]

def is_ws(c):
    "white space and separators, which the reader treats alike between values"
    return z3.Or(*[c == b8(x) for x in (' ', '\t', '\n', '\r', ',', ':')])
def digit(c): return z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
def numchar(c): return z3.Or(digit(c), *[c == b8(x) for x in '.eE+-'])
def scan(spec, name, rd, end, cls):
    "first position >= p (and <= end) whose byte is not in the class"
    F = [None]
    F[0] = spec.define(name, [W64], W64, lambda p: z3.If(z3.UGE(p, end) if end is not None else z3.BoolVal(False), end if end is not None else p, z3.If(cls(rd(p)), F[0](p + 1), p)))
    return F[0]
class Numbers:
    """assumed contracts of std::to_chars / std::from_chars: to_chars writes the shortest literal LIT(v); from_chars applied to LIT(v) followed by
    something that cannot continue it returns v and the position behind; otherwise it stops at some position behind the start with or without an error"""
    def __init__(self, C):
        self.len = {'l': z3.Function('INT_LEN', W64, W64), 'd': z3.Function('REAL_LEN', W64, W64)}
        self.byte = {'l': z3.Function('INT_BYTE', W64, W64, Byte), 'd': z3.Function('REAL_BYTE', W64, W64, Byte)}
        self.max = {'l': 20, 'd': 24}
        kind = lambda I: None
        @C.on(r'std::to_chars\(char\*, char\*, ((?:unsigned )?(?:long|int), int|double)\)')
        def tc(ex, st, a, I):
            "std::to_chars writes the shortest literal of the number if it fits, without a terminating null"
            k = 'd' if 'double' in ex.m.fns[I['callee']['n']]['dem'].split('(')[-1] else 'l'
            first, last, v = a[:3]
            if k == 'l' and a[3] != 10: raise Unsupported('to_chars base')
            d = ex.m.fns[I['callee']['n']]['dem']
            if ' int, int)' in d: v = (z3.ZeroExt if 'unsigned' in d else z3.SignExt)(32, bv(v, 32)) if isz(v) else v
            elif 'unsigned' in d and ex.check(st.pc, [b64(v) < 0])[0] != 'unsat': raise Unsupported('to_chars of an unsigned value beyond the signed range')
            v = b64(v); n = self.len[k](v); st.assume(self.wf(k, v))
            room = SUB(last.off, first.off)
            s2 = st.copy(); s2.assume(z3.UGT(n, b64(room))); st.assume(z3.ULE(n, b64(room)))
            out = []
            r, m = ex.inc_check(st.pc, z3.BoolVal(True))
            if r != 'unsat':
                if not ex.inbounds(st, first, n, 'to_chars write'): return [(None, None)]
                src = ex.new_obj(st, 'literal', 32, 'ghost', node_array(fresh_name('lit'))); rd = ex.bytes_at(st, Ptr(src, 0))
                for j in range(self.max[k]): st.assume(z3.Implies(z3.ULT(j, n), rd(j) == self.byte[k](v, b64(j))))
                ex.memcpy(st, first, Ptr(src, 0), n)
                out.append((st, [Ptr(first.obj, ADD(first.off, n)), 0]))
            r, m = ex.inc_check(s2.pc, z3.BoolVal(True))
            if r != 'unsat': s2.model = m; out.append((s2, [last, 75]))
            return out
        @C.on(r'std::from_chars\(char const\*, char const\*, double&, std::chars_format\)|^std::enable_if<.* std::from_chars<long(, |>)')
        def fc(ex, st, a, I):
            "std::from_chars returns the value of the longest number at the start of the range, or an error"
            k = 'd' if 'double' in ex.m.fns[I['callee']['n']]['dem'].split('(')[-1] else 'l'
            first, last, out = a[0], a[1], a[2]
            rd = (lambda i: z3.BitVecVal(0, 8)) if first.obj is None else ex.bytes_at(st, first)
            room = b64(SUB(last.off, first.off))
            if first.obj is not None and not ex.ub(st, AND(ULE(first.off, last.off), ULE(last.off, ex.objs[first.obj].size)), 'from_chars range in bounds'): return [(None, None)]
            used = z3.BitVec(fresh_name('fc_used'), 64); val = z3.BitVec(fresh_name('fc_val'), 64); ok = z3.Bool(fresh_name('fc_ok')); 
            st.assume(z3.ULE(used, room)); st.assume(z3.Implies(ok, used != 0))
            if hasattr(ex, 'numbers'):
                for v, obj, q, e in ex.numbers: # literals that stand at a known place by precondition
                    if obj == first.obj: st.assume(z3.Implies(z3.And(b64(first.off) == q, b64(last.off) == e), z3.And(ok, used == self.len[k](v), val == v)))
            s2 = st.copy(); s2.assume(z3.Not(ok)); st.assume(ok)
            res = []
            for s, e in ((st, 0), (s2, 1)):
                r, m = ex.inc_check(s.pc, z3.BoolVal(True))
                if r == 'unsat': continue
                s.model = m
                if e == 0: ex.wr(s, out, 8, val); ec = 0
                else:
                    ec = z3.BitVec(fresh_name('fc_ec'), 32); s.assume(z3.Or(ec == 22, ec == 34))
                res.append((s, [Ptr(first.obj, ADD(first.off, used)), ec]))
            return res
    def wf(self, k, v):
        n, B = self.len[k](v), self.byte[k]
        c = [z3.UGE(n, 1), z3.ULE(n, self.max[k]), z3.Or(digit(B(v, b64(0))), z3.And(B(v, b64(0)) == b8('-'), n != 1))]
        for j in range(1, self.max[k]): c.append(z3.Implies(z3.ULT(j, n), digit(B(v, b64(j))) if k == 'l' else numchar(B(v, b64(j)))))
        return z3.And(*c)
    def token(self, k, v, rd, room):
        "the literal of v stands at the start of the range"
        n = self.len[k](v)
        return z3.And(z3.ULE(n, room), self.wf(k, v), *[z3.Implies(z3.ULT(j, n), rd(j) == self.byte[k](v, b64(j))) for j in range(self.max[k])])
    def at(self, k, v, rd, room):
        "… and is not continued"
        n = self.len[k](v)
        return z3.And(self.token(k, v, rd, room), z3.Or(n == room, z3.Not((digit if k == 'l' else numchar)(rd(n)))))
