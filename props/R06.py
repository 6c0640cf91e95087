from hlib import *
HARNESS = 'path.cpp'; NATIVE = 'r06.cpp'
def nodes(ex, st):
    "callables of any number and structure: every place in one object of unlimited size is one; all of them have the virtual functions of the harness's class (their contracts are below)"
    place = ex.new_obj(st, 'one', 64, 'heap'); ex.push(st, ex.m.fns['h_node'], [Ptr(place, 0)], None); (k, s), = ex.run(st)
    table = ex.rd(s, Ptr(place, 0), 8, 'ptr'); N = ex.sym_bytes(s, 'nodes', z3.BitVecVal(1 << 62, 64), kind='arg'); ex.field_hook = {N: lambda s, off: table}
    s.result = None; return s, N
def find(sep, fn):
    def proof(m):
        ex, st, sp = setup(m, depth=2); st, N = nodes(ex, st); text, n, T = span(ex, st, 'text'); R = z3.BitVec('root', 64); st.assume(z3.ULT(R, 1 << 61)); k = len(sep)
        at = lambda p: z3.And(z3.ULE(p + k, n), *[T(p + j) == b8(c) for j, c in enumerate(sep)])
        S0 = [None]; S0[0] = S = sp.define('END_OF_NAME', [W64], W64, lambda p: z3.If(z3.UGE(p, n), n, z3.If(at(p), p, S0[0](p + 1))))
        CHILD = z3.Function('CHILD', W64, W64, W64, W64); NONE = z3.BitVecVal((1 << 64) - 1, 64) # the child of a callable with the name between two positions
        F0 = [None]
        def unfold(p, x):
            e = S(p); c = CHILD(x, p, e); return z3.If(z3.UGE(p, n), x, z3.If(c == NONE, NONE, F0[0](z3.If(e == n, n, e + k), c)))
        F0[0] = F = sp.define('FOUND', [W64, W64], W64, unfold)
        @ex.contracts_front.on(r'^v_child$')
        def child(ex, s, a, I):
            "getChild: the child with this name, or null"
            ex.oblige(s, a[0].obj == N and a[1].obj == text.obj, 'a child of a callable is asked for by a part of the path')
            c = CHILD(b64(a[0].off), b64(a[1].off), b64(ADD(a[1].off, a[2]))); s2 = s.copy(); s.assume(z3.And(c != NONE, z3.ULT(c, 1 << 61))); s2.assume(c == NONE); res = []
            for q, v in ((s, Ptr(N, c)), (s2, NULL)):
                r, mo = ex.inc_check(q.pc, z3.BoolVal(True))
                if r != 'unsat': q.model = mo; res.append((q, v))
            return res or [(None, None)]
        def cands(ex, entry, v0, ints, keys):
            o = []; pos = [(k_, G) for k_, G, w, p in ints if w == 64 and not (p and isinstance(v0.get(k_), Ptr) and v0.get(k_).obj == N)]; cur = [(k_, G) for k_, G, w, p in ints if p and isinstance(v0.get(k_), Ptr) and v0.get(k_).obj == N]
            o += [(f'{b[:3]} is a callable', lambda vw, B=B: z3.ULT(b64(B(vw)), 1 << 61)) for b, B in cur]
            for i, I in [(k_, G) for k_, G, w, p in ints if w == 32 and k > 1]:
                o.append((f'{i[:3]}<{k}', lambda vw, I=I: z3.And(b64(I(vw)) >= 0, b64(I(vw)) < k)))
                for a, A in ex.text_positions(entry, pos): o.append((f'{i[:3]} characters of a separator', lambda vw, I=I, A=A: z3.And(*[z3.Implies(b64(I(vw)) > j, z3.And(z3.ULT(b64(A(vw)) + j, n), T(b64(A(vw)) + j) == b8(sep[j]))) for j in range(k - 1)])))
            for a, A in pos:
                o.append((f'{a[:3]} in the same name', lambda vw, A=A: S(b64(A(vw))) == S(b64(A(v0)))))
                for b, B in cur: o.append((f'FOUND({a[:3]},{b[:3]})', lambda vw, A=A, B=B: F(b64(A(vw)), b64(B(vw))) == F(b64(0), R)))
            return o
        ex.text_positions = lambda entry, pos: pos + [(('r', r), (lambda vw, v=v: v.off)) for r, v in entry.frames[-1].regs.items() if isinstance(v, Ptr) and v.obj == text.obj and isz(v.off)]
        ex.cand_hooks.append(cands)
        for s in call(ex, st, fn, [text, n, Ptr(N, R)]):
            if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
            want = F(b64(0), R)
            if s.result.obj is None: cover(ex, s, 'nothing found'); ex.oblige(s, want == NONE, 'nothing is found if a name on the path has no callable')
            else: cover(ex, s, 'found'); ex.oblige(s, s.result.obj == N and want == b64(s.result.off), 'the callable at the end of the path is found')
        need_covers(ex, 'found', 'nothing found'); return ex
    return proof
find1 = find('.', 'h_find1'); find1.__name__ = 'find1'; find1.__doc__ = 'findCallable with a separator of one character: any path, any tree: the result is the callable reached by the names between separators, or null; no access outside the path; terminates'
find2 = find('::', 'h_find2'); find2.__name__ = 'find2'; find2.__doc__ = 'the same with a separator of two characters'
def chain(ex, st):
    "a callable with any chain of parents, seen one by one; UP: is there a parent"
    place = ex.new_obj(st, 'one', 64, 'heap'); ex.push(st, ex.m.fns['h_node'], [Ptr(place, 0)], None); (k, s), = ex.run(st); s.result = None
    table = ex.rd(s, Ptr(place, 0), 8, 'ptr'); ex.level = {}
    def node(i):
        o = ex.new_obj(s, f'node{i}', 64, 'arg'); ex.level[o] = i; ex.wr(s, Ptr(o, 0), 8, table); return Ptr(o, 0)
    return s, node
NAMED = z3.Function('NAME_APPENDED', Bytes, z3.IntSort(), Bytes); BEFORE = z3.Function('PATH_ABOVE', Bytes, z3.IntSort(), Bytes) # of the callable so many levels up
def strings(ex):
    @ex.contracts_front.on(r'^v_name$')
    def name(ex, s, a, I):
        "childName: the name of the child"
        ex.oblige(s, ex.level.get(a[1].obj, 0) + 1 == ex.level.get(a[0].obj), 'the parent is asked for the name of its child')
        n = z3.BitVec(fresh_name('name_size'), 64); s.assume(z3.ULT(n, 1 << 20)); o = ex.sym_bytes(s, 'name', n); ex.named = getattr(ex, 'named', {}); ex.named[o] = (ex.level.get(a[1].obj, 0), n); ex.wr(s, a[2], 8, n); return Ptr(o, 0)
    def span_hook(ex_, s, p, q, n):
        lv, size = ex.named[q.obj]; ex.oblige(s, AND(EQ(q.off, 0), EQ(n, size)), 'a whole name is appended'); s.ghost[ex.G.key(p, 'B')] = NAMED(ex.G.B(s, p), z3.IntVal(lv)); return True
    ex.G.span_hook = span_hook
    push_span = ex.G.push_span
    def ps(ex_, s, p, q, n):
        return span_hook(ex_, s, p, q, n) if q.obj in getattr(ex, 'named', {}) else push_span(ex_, s, p, q, n)
    ex.G.push_span = ps
    @ex.contracts_front.on(r'::prependPath\(')
    def prepend(ex, s, a, I):
        "prependPath appends the path above the callable and its name, each name followed by a separator (proved below, by induction over the parents)"
        if s.ghost.get('direct'): s.ghost['direct'] = False; return FnPtr('->' + I['callee']['n'])
        s.ghost[ex.G.key(a[1], 'B')] = BEFORE(ex.G.B(s, a[1]), z3.IntVal(ex.level[a[0].obj])); return None
def construct(m):
    """constructPath: for a callable with any chain of parents: the names of all but the topmost one, in order, with separators between; empty for the topmost"""
    ex0 = None
    for depth in (0, 1):
        ex, st, sp = setup(m); s, node = chain(ex, st); strings(ex); me = node(0); up = node(1); ex.wr(s, Ptr(me.obj, 8), 8, up if depth else NULL); s.ghost['direct'] = False
        @ex.contracts_front.on(r'^v_result$')
        def result(ex, s, a, I):
            "the result"
            s.ghost['result'] = ex.G.B(s, a[0]); return None
        s.ghost['result'] = nil; want = NAMED(BEFORE(nil, z3.IntVal(1)), z3.IntVal(0)) if depth else nil
        for t in call(ex, s, 'h_construct', [me]):
            if isinstance(t.result, Throw): ex.oblige(t, False, 'does not throw'); continue
            cover(ex, t, 'constructed'); ex.oblige(t, t.ghost['result'] == want, 'the names from the topmost one to the callable, with separators between')
        if ex0: ex.obls += ex0.obls
        ex0 = ex
    need_covers(ex, 'constructed'); return ex
def prepend(m):
    """prependPath: nothing for the topmost callable; otherwise what it appends for the parent, the name and a separator (its own contract is assumed for the parent: induction over the finite chain of parents)"""
    ex0 = None
    for depth in (0, 1):
        ex, st, sp = setup(m); s, node = chain(ex, st); strings(ex); me = node(1); up = node(2); ex.wr(s, Ptr(me.obj, 8), 8, up if depth else NULL); s.ghost['direct'] = True
        B0 = z3.Const('text_before', Bytes); p = Ptr(ex.new_obj(s, 'path', 8, 'ghost'), 0); ex.G.init_snoc(ex, s, p, B0); want = snoc(NAMED(BEFORE(B0, z3.IntVal(2)), z3.IntVal(1)), b8('/')) if depth else B0
        for t in call(ex, s, 'h_prepend', [me, p]):
            if isinstance(t.result, Throw): ex.oblige(t, False, 'does not throw'); continue
            cover(ex, t, 'prepended'); ex.oblige(t, ex.G.B(t, p) == want, 'the path above, the name and a separator are appended')
        if ex0: ex.obls += ex0.obls
        ex0 = ex
    need_covers(ex, 'prepended'); return ex
PROOFS = [find1, find2, construct, prepend]
