"""Assumed contracts of std::string (library code): value semantics over fresh byte objects; every mutation invalidates views."""
from spec import *
S = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'
SV = r'std::basic_string_view<char, std::char_traits<char>>'
def str_set(ex, st, addr, node, ln, kill=True):
    """node: chain holding the bytes 0..ln"""
    old = st.mem[addr.obj].cells.get(addr.off)
    o = ex.new_obj(st, 'str', ADD(ln, 1), 'str', Node('w', (ln, 0), node))
    ex.wr(st, addr, 8, Ptr(o, 0)); ex.wr(st, Ptr(addr.obj, add64(addr.off, 8)), 8, ln)
    if kill and old is not None and isinstance(old[1], Ptr) and old[1].obj is not None and ex.objs[old[1].obj].kind == 'str': st.dead = st.dead | {old[1].obj}
def str_get(ex, st, addr):
    p = ex.rd(st, addr, 8, 'ptr'); n = ex.rd(st, Ptr(addr.obj, add64(addr.off, 8)), 8, 'i64')
    return p, n
def span_node(ex, st, p, n):
    """chain with the bytes p..p+n at 0.. ; obliges readability"""
    if isinstance(n, int) and n == 0: return Node('zero', None)
    if p.obj is None:
        if not ex.ub(st, EQ(n, 0), 'null range is empty'): return None
        return Node('zero', None)
    o = ex.objs[p.obj]
    if p.obj in st.dead:
        if not ex.ub(st, EQ(n, 0), f'read of dead object {o.name}'): return None
        return Node('zero', None)
    if not ex.ub(st, AND(ULE(p.off, o.size), ULE(n, SUB(o.size, p.off))), f'range read in bounds of {o.name}'): return None
    m = st.mem[p.obj]
    if not m.cells and m.base is not None and isinstance(p.off, int) and p.off == 0: return m.base
    m = ex.flush(st, p.obj)
    return Node('copy', (0, m.base or node_array(fresh_name('uninit')), p.off, n), Node('zero', None))
def cat_node(ex, st, a, na, b, nb): return Node('copy', (na, b, 0, nb), a)
DEADPATH = [(None, None)]
def cstr_len(ex, st, p):
    s = cstr(ex, st, p)
    if s is not None: return len(s)
    raise Unsupported('C string of unknown length')
def string_contracts(C):
    def ctor_span(ex, st, this, p, n):
        nd = span_node(ex, st, p, n)
        if nd is None: return DEADPATH
        ex.wr(st, this, 8, NULL); str_set(ex, st, this, nd, n); return None
    def sv_at(ex, st, p): return ex.rd(st, Ptr(p.obj, add64(p.off, 8)), 8, 'ptr'), ex.rd(st, p, 8, 'i64')
    @C.on(S + r'basic_string\(\)$|' + S + r'basic_string\(std::allocator<char> const&\)$')
    def c0(ex, st, a, I):
        "std::string()"
        ex.wr(st, a[0], 8, NULL); str_set(ex, st, a[0], Node('zero', None), 0)
    @C.on(S + r'basic_string\(std::__cxx11::basic_string<.*>&&\)$')
    def cm(ex, st, a, I):
        "std::string(string&&)"
        p, n = str_get(ex, st, a[1]); ex.wr(st, a[0], 8, NULL)
        str_set(ex, st, a[0], span_node(ex, st, p, n), n); str_set(ex, st, a[1], Node('zero', None), 0)
    @C.on(S + r'basic_string\(std::__cxx11::basic_string<.*> const&\)$')
    def cc(ex, st, a, I):
        "std::string(const string&)"
        p, n = str_get(ex, st, a[1]); return ctor_span(ex, st, a[0], p, n)
    @C.on(S + r'basic_string\(char const\*, unsigned long, ')
    def cpn(ex, st, a, I):
        "std::string(const char*, n)"
        return ctor_span(ex, st, a[0], a[1], a[2])
    @C.on(S + r'basic_string<std::allocator<char>>\(char const\*, |' + S + r'basic_string\(char const\*, std::allocator')
    def cp(ex, st, a, I):
        "std::string(const char*)"
        n = ex_strlen(ex, st, a[1]); return ctor_span(ex, st, a[0], a[1], n)
    @C.on(S + r'basic_string<' + SV + r', void>\(')
    def csv(ex, st, a, I):
        "std::string(string_view)"
        p, n = sv_at(ex, st, a[1]); return ctor_span(ex, st, a[0], p, n)
    @C.on(S + r'~basic_string\(\)')
    def d(ex, st, a, I):
        "~std::string"
        c = st.mem[a[0].obj].cells.get(a[0].off)
        if c and isinstance(c[1], Ptr) and c[1].obj is not None: st.dead = st.dead | {c[1].obj}
    def append(ex, st, this, p, n):
        p0, n0 = str_get(ex, st, this)
        a_ = span_node(ex, st, p0, n0); b_ = span_node(ex, st, p, n)
        if a_ is None or b_ is None: return DEADPATH
        ln = ADD(n0, n)
        str_set(ex, st, this, cat_node(ex, st, a_, n0, b_, n), ln)
        return this
    @C.on(S + r'(operator\+=|push_back)\(char\)$')
    def pc(ex, st, a, I):
        "std::string += char"
        p0, n0 = str_get(ex, st, a[0]); nd = span_node(ex, st, p0, n0)
        str_set(ex, st, a[0], Node('w', (n0, a[1]), nd), ADD(n0, 1)); return a[0]
    @C.on(S + r'(operator\+=|append)\(char const\*\)$')
    def acp(ex, st, a, I):
        "std::string += const char*"
        return append(ex, st, a[0], a[1], ex_strlen(ex, st, a[1]))
    @C.on(S + r'append\(char const\*, unsigned long\)$')
    def acpn(ex, st, a, I):
        "std::string::append(p, n)"
        return append(ex, st, a[0], a[1], a[2])
    @C.on(S + r'(operator\+=|append)\(std::__cxx11::basic_string<.*> const&\)$')
    def as_(ex, st, a, I):
        "std::string += string"
        p, n = str_get(ex, st, a[1]); return append(ex, st, a[0], p, n)
    @C.on(r'basic_string<.*>::(operator\+=|append)<' + SV + r'>\(|' + S + r'.*(operator\+=|append)<' + SV + '>')
    def asv(ex, st, a, I):
        "std::string += string_view"
        p, n = sv_at(ex, st, a[1]); return append(ex, st, a[0], p, n)
    def assign(ex, st, this, p, n):
        nd = span_node(ex, st, p, n)
        if nd is None: return DEADPATH
        str_set(ex, st, this, nd, n); return this
    @C.on(S + r'(operator=|assign)\(std::__cxx11::basic_string<.*>(&&| const&)\)$')
    def eqs(ex, st, a, I):
        "std::string = string"
        p, n = str_get(ex, st, a[1]); return assign(ex, st, a[0], p, n)
    @C.on(S + r'(operator=|assign)\(char const\*\)$')
    def eqc(ex, st, a, I):
        "std::string = const char*"
        return assign(ex, st, a[0], a[1], ex_strlen(ex, st, a[1]))
    @C.on(r'basic_string<.*>::(operator=|assign)<' + SV + r'>\(')
    def eqsv(ex, st, a, I):
        "std::string = string_view"
        p, n = sv_at(ex, st, a[1]); return assign(ex, st, a[0], p, n)
    @C.on(S + r'clear\(\)$')
    def clr(ex, st, a, I):
        "std::string::clear"
        str_set(ex, st, a[0], Node('zero', None), 0)
    @C.on(S + r'resize\(unsigned long\)$|' + S + r'resize\(unsigned long, char\)$')
    def rsz(ex, st, a, I):
        "std::string::resize keeps the common prefix and zero-fills"
        p0, n0 = str_get(ex, st, a[0]); nd = span_node(ex, st, p0, n0)
        fill = a[2] if len(a) > 2 else 0
        str_set(ex, st, a[0], Node('copy', (0, nd, 0, n0), Node('zero', None)) if fill == 0 else Node('copy', (0, nd, 0, n0), Node('fill', (0, fill, a[1]), Node('zero', None))), a[1])
    @C.on(S + r'reserve\(')
    def rsv(ex, st, a, I):
        "std::string::reserve has no observable effect except view invalidation"
        p0, n0 = str_get(ex, st, a[0]); str_set(ex, st, a[0], span_node(ex, st, p0, n0), n0)
    return C
def ex_strlen(ex, st, p):
    s = cstr(ex, st, p)
    if s is not None: return len(s)
    for rx, f, doc in ex.contracts:
        if rx.search('strlen'): return f(ex, st, [p], None)
