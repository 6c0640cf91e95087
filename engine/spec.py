"""Specification layer: ghost byte strings, recursive specification functions with explicit unfolding, standard contracts."""
from ex import *
Byte = z3.BitVecSort(8); W64 = z3.BitVecSort(64)
_L = z3.Datatype('Bytes'); _L.declare('nil'); _L.declare('snoc', ('prev', _L), ('last', Byte)); Bytes = _L.create()
nil, snoc = Bytes.nil, Bytes.snoc
def b8(c): return z3.BitVecVal(ord(c) if isinstance(c, str) else c, 8)
def b64(v): return bv(v, 64)

class Spec:
    """registry of recursive specification functions; unfold(args) gives the defining equation's right-hand side"""
    def __init__(self, depth=1):
        self.fns = {}; self.depth = depth; self.cache = {}; self.apps = {}; self.keep = []
    def define(self, name, doms, rng, unfold):
        f = z3.Function(name, *doms, rng)
        self.fns[f.get_id()] = (f, unfold); self.keep.append(f)
        return f
    def find(self, e):
        """spec applications in e (cached per expression)"""
        i = e.get_id()
        if i in self.apps: return self.apps[i]
        out = {}
        seen = set(); st = [e]
        while st:
            x = st.pop(); j = x.get_id()
            if j in seen: continue
            seen.add(j)
            if j in self.apps and j != i: out.update(self.apps[j]); continue
            if z3.is_app(x):
                if x.num_args() and x.decl().get_id() in self.fns: out[j] = x
                st.extend(x.children())
        self.apps[i] = out; self.keep.append(e)
        return out
    def axiom(self, a):
        i = a.get_id()
        if i not in self.cache:
            f, unf = self.fns[a.decl().get_id()]
            r = unf(*a.children())
            self.cache[i] = (a == r) if r is not None else z3.BoolVal(True); self.keep.append(a)
        return self.cache[i]
    def axioms(self, exprs, depth=None):
        out, done = [], set(); cur = list(exprs)
        for d in range(depth or self.depth):
            new = {}
            for e in cur:
                for j, a in self.find(e).items():
                    if j not in done: new[j] = a
            if not new: break
            cur = []
            for j, a in new.items():
                done.add(j); ax = self.axiom(a); out.append(ax); cur.append(ax)
        return out

def cstr(ex, st, p, limit=4096):
    """contents of a constant C string at p (concrete)"""
    m = st.mem[p.obj]; out = bytearray()
    for k in range(limit):
        b = ex.rbyte(st, p.obj, m, p.off + k)
        if not isinstance(b, int): return None
        if b == 0: return bytes(out)
        out.append(b)
    return None

def std_contracts():
    """contracts assumed for the C++ runtime and the C library"""
    C = ContractBag()
    @C.on(r'^operator new(\[\])?\(unsigned long(, std::nothrow_t const&)?\)$|^_Zn[wa]m$')
    def op_new(ex, st, a, I):
        "operator new returns a fresh object of the requested size (allocation failure not modelled)"
        return Ptr(ex.new_obj(st, 'heap', norm(a[0]), 'heap'), 0)
    @C.on(r'^operator delete(\[\])?\(')
    def op_del(ex, st, a, I):
        "operator delete ends the lifetime of the object"
        if isinstance(a[0], Ptr) and a[0].obj is not None: st.dead = st.dead | {a[0].obj}
        return None
    @C.on(r'^(std::)?memcpy$|^(std::)?memmove$')
    def mc(ex, st, a, I):
        "memcpy/memmove copy n bytes between valid ranges"
        return a[0] if ex.memcpy(st, a[0], a[1], a[2]) else [(None, None)]
    @C.on(r'^memset$')
    def ms(ex, st, a, I):
        "memset"
        return a[0] if ex.memset(st, a[0], simp(z3.Extract(7, 0, bv(a[1], 32))) if isz(a[1]) else a[1] & 255, a[2]) else [(None, None)]
    @C.on(r'^strlen$')
    def sl(ex, st, a, I):
        "strlen returns the index of the first NUL"
        s = cstr(ex, st, a[0])
        if s is not None: return len(s)
        o = ex.objs[a[0].obj]
        # symbolic: the object must contain a NUL at or after p
        n = z3.BitVec(fresh_name('strlen'), 64)
        rd = ex.bytes_at(st, a[0])
        st.assume(AND(ULE(a[0].off, o.size), ULT(n, SUB(o.size, a[0].off)), zb(rd(n) == 0)))
        ex.nul_facts.append((a[0], n, rd)) if hasattr(ex, 'nul_facts') else None
        return n
    @C.on(r'^__cxa_allocate_exception$')
    def cae(ex, st, a, I):
        "exception allocation"
        return Ptr(ex.new_obj(st, 'exception', 64, 'heap'), 0)
    @C.on(r'^__cxa_free_exception$|^v_exc_dtor$|^std::(runtime_error|logic_error|exception|out_of_range|length_error|bad_alloc|invalid_argument)::~')
    def cfe(ex, st, a, I):
        "exception destruction has no other effect"
        return None
    @C.on(r'^std::(runtime_error|logic_error|out_of_range|length_error|invalid_argument|exception)::(runtime_error|logic_error|out_of_range|length_error|invalid_argument|exception)\(')
    def exctor(ex, st, a, I):
        "standard exception constructors only initialise the exception object"
        return None
    @C.on(r'^__cxa_throw$')
    def cth(ex, st, a, I):
        "throw unwinds to the nearest matching handler"
        ti = I['args'][1]['n']
        ex.make_exc(st, ti, a[0].obj)
        class T: pass
        t = ThrowObj(a[0].obj); return [(st, t)]
    @C.on(r'^__cxa_begin_catch$')
    def cbc(ex, st, a, I):
        "catch entry"
        st.caught = st.caught + (a[0].obj,); return a[0]
    @C.on(r'^__cxa_end_catch$')
    def cec(ex, st, a, I):
        "catch exit"
        st.caught = st.caught[:-1]; return None
    @C.on(r'^__cxa_rethrow$')
    def crt(ex, st, a, I):
        "rethrow"
        return [(st, ThrowObj(st.caught[-1]))]
    @C.on(r'^__clang_call_terminate$|^std::terminate\(\)$|^abort$')
    def term(ex, st, a, I):
        "std::terminate ends the program"
        ex.oblige(st, False, 'std::terminate is not reached', 'safety'); return [(None, None)]
    @C.on(r'^v_exc_what$')
    def what(ex, st, a, I):
        "what() returns some NUL-terminated string"
        n = z3.BitVec(fresh_name('whatlen'), 64); st.assume(ULT(n, 1 << 16))
        o = ex.sym_bytes(st, 'what', ADD(n, 1))
        st.assume(zb(read8(st.mem[o].base, n) == 0))
        return Ptr(o, 0)
    @C.on(r'^std::__throw_(\w+)\(')
    def sthrow(ex, st, a, I):
        "libstdc++ __throw_X helpers throw std::X"
        d = ex.m.fns.get(I['callee']['n'])['dem'] if isinstance(I['callee'], dict) else ''
        k = re.search(r'__throw_(\w+?)(_fmt)?\(', d).group(1)
        ti = {'out_of_range': '_ZTISt12out_of_range', 'logic_error': '_ZTISt11logic_error', 'length_error': '_ZTISt12length_error', 'bad_optional_access': '_ZTISt19bad_optional_access',
              'bad_alloc': '_ZTISt9bad_alloc', 'bad_array_new_length': '_ZTISt9bad_alloc', 'bad_function_call': '_ZTISt17bad_function_call', 'invalid_argument': '_ZTISt16invalid_argument'}.get(k, '_ZTISt9exception')
        return [(st, Throw(ti))]
    @C.on(r'^std::__glibcxx_assert_fail|^__assert_fail$')
    def asf(ex, st, a, I):
        "library assertion failure"
        ex.oblige(st, False, 'library assertion holds', 'safety'); return [(None, None)]
    @C.on(r'^__gxx_personality')
    def gp(ex, st, a, I): return None
    return C

class ThrowObj(Throw):
    def __init__(s, obj): s.obj = obj; s.ty = None

def apply_results(self, st, I, res, work):
    if not (isinstance(res, list) and res and isinstance(res[0], tuple)): res = [(st, res)]
    for s, v in res:
        if s is None: continue
        if isinstance(v, ThrowObj): s.exc = v.obj; self.unwind(s)
        elif isinstance(v, Throw): self.throw(s, v.ty)
        else: self.finish_call(s, I, v)
        work.append(s)
    return False
Executor.apply_results = apply_results
