from lib import *
OK, READ_ON, WRONG_REPLY, DISCONNECT = 0, 1, 2, 3
def from_chars_int(ex, seen=None):
    @ex.contracts_front.on(r'std::from_chars<int(, |>)')
    def fc(ex, s, a, I):
        "std::from_chars reads inside the range given and sets the value or leaves it"
        first, last, out = a[0], a[1], a[2]
        if first.obj is not None and not ex.ub(s, AND(ULE(first.off, last.off), ULE(last.off, ex.objs[first.obj].size)), 'from_chars range in bounds'): return [(None, None)]
        old = bv(ex.rd(s, out, 4, 'i32'), 32); new = z3.BitVec(fresh_name('length'), 32); ok = z3.Bool(fresh_name('fc_ok')); v = z3.If(ok, new, old); ex.wr(s, out, 4, v)
        if seen: seen(s, first, last, v)
        return [first, z3.BitVec(fresh_name('fc_ec'), 32)]
def low(c): return z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c)
def blank(c): return z3.Or(c == b8(' '), c == b8('\t'))
def scanto(sp, name, T, n, stop):
    "first position >= p whose byte satisfies stop, or n"
    F = [None]; F[0] = sp.define(name, [W64], W64, lambda p: z3.If(z3.UGE(p, n), n, z3.If(stop(T(p)), p, F[0](p + 1)))); return F[0]
def shape(ex, name, obj, at, want):
    "invariant candidate over a whole array: at every index where at(view, i) it holds want(view, i); elsewhere anything (want None: unchanged nowhere)"
    i0 = z3.BitVec('any_index', 64)
    def check(vw): return z3.Implies(at(vw, i0), bv(ex.bytes_at(vw.st, Ptr(obj, 0))(i0), 8) == want(vw, i0))
    return (name, check, obj, lambda vw, base: (lambda i: z3.If(at(vw, b64(i)), want(vw, b64(i)), bv(read8(base, i), 8))))
