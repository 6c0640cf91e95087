"""Contracts of the ghost string GStr (append-only output).
   An object is either in 'snoc' mode (its contents are a ghost list) or 'prophecy' mode
   (its final contents are a fixed unknown array P; appending c at length L reveals P[L]==c)."""
from spec import *
G = r'^GStr::'
def gs_key(ex, st, p): return (p.obj, p.off)
class GhostStrings:
    def __init__(self): self.kind = {}; self.default = 'snoc'
    def key(self, p, what): return f'gs_{what}_{p.obj}_{p.off}'
    def init_prophecy(self, ex, st, p, name):
        k = (p.obj, p.off)
        arr = z3.Array(fresh_name('P_' + name), W64, Byte)
        L0 = z3.BitVec(fresh_name('L_' + name), 64)
        st.ghost[self.key(p, 'L')] = L0
        st.assume(z3.ULT(L0, 1 << 40))
        self.kind[k] = ('prophecy', arr)
        return arr, L0
    def init_snoc(self, ex, st, p, init=None):
        self.kind[(p.obj, p.off)] = ('snoc', None)
        st.ghost[self.key(p, 'B')] = nil if init is None else init
    def L(self, st, p): return st.ghost[self.key(p, 'L')]
    def B(self, st, p): return st.ghost[self.key(p, 'B')]
    def push(self, ex, st, p, c):
        k = self.kind.get((p.obj, p.off))
        if k is None: raise Unsupported('ghost string of unknown kind')
        if k[0] == 'prophecy':
            L = self.L(st, p)
            st.assume(z3.Select(k[1], b64(L)) == bv(c, 8))
            st.ghost[self.key(p, 'L')] = b64(ADD(L, 1))
        else:
            st.ghost[self.key(p, 'B')] = snoc(self.B(st, p), bv(c, 8))
    def push_span(self, ex, st, p, q, n):
        if isinstance(n, int) and n <= 64:
            if n and not ex.inbounds(st, q, n, 'read'): return False
            for j in range(n): self.push(ex, st, p, ex.rd(st, Ptr(q.obj, add64(q.off, j)), 1, 'i8'))
            return True
        k = self.kind[(p.obj, p.off)]
        if hasattr(self, 'span_hook'): return self.span_hook(ex, st, p, q, n)
        if k[0] != 'prophecy': raise Unsupported('append of a symbolic range to a ghost string')
        if q.obj is None:
            if not ex.ub(st, EQ(n, 0), 'null range is empty'): return False
            return True
        o = ex.objs[q.obj]
        if q.obj in st.dead and not ex.ub(st, EQ(n, 0), f'read of dead object {o.name}'): return False
        if not ex.ub(st, AND(ULE(q.off, o.size), ULE(n, SUB(o.size, q.off))), f'range read in bounds of {o.name}'): return False
        rd = ex.bytes_at(st, q); L = b64(self.L(st, p)); i = z3.BitVec(fresh_name('app'), 64)
        st.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, b64(n)), z3.Select(k[1], L + i) == bv(rd(i), 8)), patterns=[z3.Select(k[1], L + i)]))
        st.ghost[self.key(p, 'L')] = b64(ADD(L, n)); return True
    def contracts(self, C):
        D = ' (ghost string: assumed contract of an append-only string)'
        @C.on(G + r'GStr\(\)')
        def ctor(ex, st, a, I):
            self.init_snoc(ex, st, a[0])
            if hasattr(ex, 'new_gstr'): ex.new_gstr(st, a[0])
        ctor.__doc__ = 'GStr()'
        @C.on(G + r'~GStr')
        def dtor(ex, st, a, I): return None
        @C.on(G + r'operator\+=\(char\)$')
        def pc(ex, st, a, I):
            self.push(ex, st, a[0], a[1]); return a[0]
        @C.on(G + r'operator\+=\(char const\*\)$')
        def ps(ex, st, a, I):
            s = cstr(ex, st, a[1])
            if s is not None:
                for c in s: self.push(ex, st, a[0], c)
                return a[0]
            return self.push_cstr(ex, st, a[0], a[1])
        @C.on(G + r'operator\+=\(std::basic_string_view')
        def psv(ex, st, a, I):
            return a[0] if self.push_span(ex, st, a[0], a[2], a[1]) else [(None, None)]
        @C.on(G + r'clear\(\)')
        def clr(ex, st, a, I):
            k = self.kind[(a[0].obj, a[0].off)]
            if k[0] == 'prophecy': raise Unsupported('clear of an output string')
            st.ghost[self.key(a[0], 'B')] = nil
        @C.on(G + r'operator std::basic_string_view')
        def view(ex, st, a, I):
            # the view is only compared through the ghost contents: a fresh object standing for them
            n = z3.BitVec(fresh_name('viewlen'), 64)
            o = ex.sym_bytes(st, 'view', n)
            ex.view_of = getattr(ex, 'view_of', {}); ex.view_of[o] = st.ghost.get(self.key(a[0], 'B'))
            return [n, Ptr(o, 0)]
        for rx, f, d in C[-8:]: pass
        return C
    def push_cstr(self, ex, st, p, q):
        "a null-terminated string in a small local buffer"
        o = ex.objs[q.obj]; k = self.kind.get((p.obj, p.off))
        if not isinstance(o.size, int) or o.size > 64 or not isinstance(q.off, int): raise Unsupported("append of a C string of unknown contents")
        rd = ex.bytes_at(st, q); n = z3.BitVec(fresh_name("cstrlen"), 64); room = o.size - q.off
        if not ex.ub(st, OR(*[zb(bv(rd(j), 8) == 0) for j in range(room)]), f"C string in {o.name} is terminated"): return [(None, None)]
        st.assume(z3.ULT(n, room)); st.assume(z3.And(*[z3.And(z3.Implies(z3.ULT(j, n), bv(rd(j), 8) != 0), z3.Implies(n == j, bv(rd(j), 8) == 0)) for j in range(room)]))
        if k[0] != "prophecy": raise Unsupported("append of a symbolic C string")
        L = self.L(st, p)
        for j in range(room - 1): st.assume(z3.Implies(z3.ULT(j, n), z3.Select(k[1], b64(L) + j) == bv(rd(j), 8)))
        st.ghost[self.key(p, "L")] = b64(ADD(L, n)); return p
