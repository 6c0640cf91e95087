from lib import *
from jsonspec import *
def source(ex, st, limit=1 << 31):
    n = z3.BitVec('n', 64); st.assume(z3.ULT(n, limit - 64))
    src = ex.sym_bytes(st, 'json', n); pos = z3.BitVec('pos', 32); p64 = z3.SignExt(32, pos)
    st.assume(z3.And(pos >= 0, z3.ULE(p64, n))); S = ex.bytes_at(st, Ptr(src, 0))
    end = ex.new_obj(st, 'end', 4, 'out'); ex.hints = [('n', n)]
    return n, Ptr(src, 0), pos, p64, S, Ptr(end, 0)
def positions(f):
    "invariant candidates over every integer in play"
    def cands(ex, entry, v0, ints, keys):
        out = []
        for k, G, w, p in ints:
            if w < 32: continue
            out += [(f'{n}({k[:3]})', (lambda vw, G=G, c=c: c(vw, b64(G(vw))))) for n, c in f(ex)]
        return out
    return cands
def chars(S, n, off=(0,)):
    "invariant candidates: a character in play is the one at a position in play (or null at the end)"
    def cands(ex, entry, v0, ints, keys):
        out = []
        cs = [(k, G) for k, G, w, p in ints if w == 8]
        for k, G, w, p in ints:
            if w < 32: continue
            for c, Gc in cs:
                for d in off: out.append((f'{c[:3]}=S[{k[:3]}-{d}] or 0', lambda vw, G=G, d=d, c=c: bv(vw.get(c), 8) == z3.If(z3.ULT(b64(SUB(G(vw), d)), n), S(SUB(G(vw), d)), b8(0))))
        return out
    return cands
def thrown_ok(ex, s, cond, what): ex.oblige(s, cond, what)
def parse_error(ex, s):
    "the exception is one of the library's own (ParseError, RemoteError)"
    t = s.result
    ti = ex.exc_types.get(t.obj) if getattr(t, 'obj', None) else t.ty
    return any(x in (ti or '') for x in ('ParseError', 'RemoteError'))
