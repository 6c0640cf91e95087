"""Assumed contracts of std::vector<char> (library code): value semantics; every change of size invalidates all pointers into it (stricter than the library)."""
from spec import *
from stdstr import span_node, DEADPATH
V = r'^std::vector<char, std::allocator<char>>::'
def vec(ex, st, a):
    p, e = ex.rd(st, a, 8, 'ptr'), ex.rd(st, Ptr(a.obj, add64(a.off, 8)), 8, 'ptr')
    if p.obj is None: return p, 0
    return p, SUB(e.off, p.off)
def vec_set(ex, st, a, node, n):
    old = ex.rd(st, a, 8, 'ptr'); o = ex.new_obj(st, 'vector', n, 'heap', node)
    ex.wr(st, a, 8, Ptr(o, 0))
    for k in (8, 16): ex.wr(st, Ptr(a.obj, add64(a.off, k)), 8, Ptr(o, n))
    if old.obj is not None: st.dead = st.dead | {old.obj}
def vec_none(ex, st, a):
    old = ex.rd(st, a, 8, 'ptr')
    for k in (0, 8, 16): ex.wr(st, Ptr(a.obj, add64(a.off, k)), 8, NULL)
    if old.obj is not None: st.dead = st.dead | {old.obj}
def vector_contracts(C):
    @C.on(V + r'resize\(unsigned long\)$')
    def rsz(ex, st, a, I):
        "std::vector<char>::resize keeps the common beginning and adds zeroes"
        p, n = vec(ex, st, a[0]); m = norm(a[1]); nd = span_node(ex, st, p, n)
        if nd is None: return DEADPATH
        if not ex.ub(st, ULT(m, 1 << 62), 'a size a vector can have'): return DEADPATH
        vec_set(ex, st, a[0], Node('copy', (0, nd, 0, n), Node('zero', None)), m)
    @C.on(V + r'erase\(__gnu_cxx::__normal_iterator<char const\*.*, __gnu_cxx::__normal_iterator')
    def ers(ex, st, a, I):
        "std::vector<char>::erase(from, to) closes the gap"
        p, n = vec(ex, st, a[0]); f, t = a[1], a[2]
        if not ex.ub(st, AND(f.obj == p.obj, t.obj == p.obj, ULE(SUB(f.off, p.off), SUB(t.off, p.off)), ULE(SUB(t.off, p.off), n)), 'erase inside the vector'): return DEADPATH
        lo, hi = SUB(f.off, p.off), SUB(t.off, p.off); nd = span_node(ex, st, p, n)
        vec_set(ex, st, a[0], Node('copy', (lo, nd, hi, SUB(n, hi)), nd), SUB(n, SUB(hi, lo))); return ex.rd(st, a[0], 8, 'ptr')
    @C.on(V + r'shrink_to_fit\(\)$')
    def stf(ex, st, a, I):
        "std::vector<char>::shrink_to_fit has no observable effect except that pointers become invalid"
        p, n = vec(ex, st, a[0])
        if isinstance(n, int) and n == 0 or ex.must(st, EQ(n, 0)): vec_none(ex, st, a[0]); return None
        nd = span_node(ex, st, p, n); vec_set(ex, st, a[0], nd, n)
    @C.on(V + r'clear\(\)$')
    def clr(ex, st, a, I):
        "std::vector<char>::clear removes all"
        vec_none(ex, st, a[0])
    @C.on(V + r'~vector\(\)$')
    def dt(ex, st, a, I):
        "std::vector<char>::~vector"
        p = ex.rd(st, a[0], 8, 'ptr')
        if p.obj is not None: st.dead = st.dead | {p.obj}
    return C
