"""Deductive verifier for LLVM IR: verification conditions by symbolic execution.

Loops are never unrolled in proof mode: every loop header is a cut point.  On entry the modified
locations are replaced by fresh symbols constrained only by an inductive invariant (the largest
inductive subset of a set of candidate clauses, found by fixpoint elimination); each path of the body
that returns to the header must re-establish every clause kept.  Calls are either executed in place
(functions without a contract) or replaced by the callee's contract (requires -> obligation,
ensures -> assumption).  All machine arithmetic is bit-vector exact.
"""
import json, subprocess, os, sys, time, itertools, re
import z3

PROOF, BMC = 'proof', 'bmc'

class Unsupported(Exception): pass
class Budget(Exception): pass

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off=0): s.obj, s.off = obj, off
    def __repr__(s): return f'Ptr({s.obj},{s.off})'
class FnPtr:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __repr__(s): return f'FnPtr({s.name})'
    def __eq__(s, o): return isinstance(o, FnPtr) and s.name == o.name
    def __hash__(s): return hash(s.name)
NULL = Ptr(None, 0)

_fresh = itertools.count()
def fresh_name(p): return f'{p}!{next(_fresh)}'

# ---------------------------------------------------------------- value helpers
def isz(v): return isinstance(v, z3.ExprRef)
def mask(w): return (1 << w) - 1
def bv(v, w):
    if isinstance(v, bool): return z3.BitVecVal(int(v), w)
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v
def zb(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.BoolVal(bool(v))
    if z3.is_bv(v): return v == z3.BitVecVal(1, v.size())
    return v
def norm(v):
    """z3 expr -> python int/bool when it is a literal (cheap simplification)."""
    if isinstance(v, (int, bool)) or not isz(v): return v
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return v
def simp(v):
    if isz(v): return norm(z3.simplify(v, elim_sign_ext=False))
    return v
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v
def eqv(a, b):
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b)
    if isz(a) or isz(b): return False
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and eqv(a.off, b.off)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b
def sext(v, w, to):
    if isinstance(v, (int, bool)): return sgn(int(v), w) & mask(to)
    return norm(z3.SignExt(to - w, v)) if to > w else v
def zext(v, w, to):
    if isinstance(v, (int, bool)): return int(v)
    return norm(z3.ZeroExt(to - w, v)) if to > w else v
def add64(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & mask(64)
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    # keep linear offsets tidy: (x + c1) + c2
    return norm(z3.simplify(bv(a, 64) + bv(b, 64), elim_sign_ext=False))
def AND(*xs):
    r = []
    for x in xs:
        x = norm(x)
        if x is True: continue
        if x is False: return False
        r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def OR(*xs):
    r = []
    for x in xs:
        x = norm(x)
        if x is False: continue
        if x is True: return True
        r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def NOT(x):
    x = norm(x)
    if isinstance(x, bool): return not x
    return z3.Not(x)
def IMP(a, b): return OR(NOT(a), b)
def ITE(c, a, b, w=None):
    c = norm(c)
    if c is True: return a
    if c is False: return b
    if eqv(a, b): return a
    if w is None:
        w = a.size() if isz(a) and z3.is_bv(a) else b.size() if isz(b) and z3.is_bv(b) else None
    if w: return norm(z3.If(c, bv(a, w), bv(b, w)))
    if isinstance(a, bool): a = z3.BoolVal(a)
    if isinstance(b, bool): b = z3.BoolVal(b)
    return z3.If(c, a, b)
def EQ(a, b, w=64):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return int(a) == int(b)
    return simp(bv(a, w) == bv(b, w))
def SLE(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int): return sgn(a, w) <= sgn(b, w)
    return simp(bv(a, w) <= bv(b, w))
def SLT(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int): return sgn(a, w) < sgn(b, w)
    return simp(bv(a, w) < bv(b, w))
def ULE(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    return simp(z3.ULE(bv(a, w), bv(b, w)))
def ULT(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return simp(z3.ULT(bv(a, w), bv(b, w)))
def SUB(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int): return (a - b) & mask(w)
    return simp(bv(a, w) - bv(b, w))
def ADD(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & mask(w)
    return simp(bv(a, w) + bv(b, w))

# ---------------------------------------------------------------- memory chains
# A chain node describes the bytes of an object: reading is beta reduction, so no array theory beyond select is needed.
class Node:
    __slots__ = ('k', 'a', 'prev')
    def __init__(s, k, a, prev=None): s.k, s.a, s.prev = k, a, prev
BASE_KINDS = ('arr', 'zero', 'const', 'fn')
def node_array(name): return Node('arr', z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8)))
def read8(n, i):
    if n.k == 'arr':
        return z3.Select(n.a, bv(i, 64))
    if n.k == 'zero': return 0
    if n.k == 'const':
        data = n.a
        if isinstance(i, int): return data[i] if i < len(data) else 0
        r = z3.BitVecVal(0, 8)
        for j, b in enumerate(data): r = z3.If(i == j, z3.BitVecVal(b, 8), r)
        return r
    if n.k == 'fn': return n.a(i)
    if n.k == 'w':
        o, v = n.a
        c = EQ(i, o)
        if c is True: return v
        if c is False: return read8(n.prev, i)
        return ITE(c, v, read8(n.prev, i), 8)
    if n.k == 'copy':
        d, src, so, ln = n.a
        c = AND(ULE(d, i), ULT(SUB(i, d), ln))
        if c is True: return read8(src, ADD(SUB(i, d), so))
        if c is False: return read8(n.prev, i)
        return ITE(c, read8(src, ADD(SUB(i, d), so)), read8(n.prev, i), 8)
    if n.k == 'fill':
        d, v, ln = n.a
        c = AND(ULE(d, i), ULT(SUB(i, d), ln))
        return ITE(c, v, read8(n.prev, i), 8) if not isinstance(c, bool) else (v if c else read8(n.prev, i))
    raise Unsupported('node ' + n.k)

class Mem:
    """cells: concrete offset -> (nbytes, value); base: chain for everything not covered by cells."""
    __slots__ = ('cells', 'base')
    def __init__(s, cells=None, base=None): s.cells, s.base = cells or {}, base
    def copy(s): return Mem(dict(s.cells), s.base)

class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'ro', 'ninit')
    def __init__(s, id, name, size, kind, ro=False): s.id, s.name, s.size, s.kind, s.ro = id, name, size, kind, ro

class Frame:
    __slots__ = ('fn', 'regs', 'block', 'prev', 'ip', 'ret', 'inst', 'enter', 'allocas', 'counts', 'onret', 'placed')
    def __init__(s, fn): s.fn, s.regs, s.block, s.prev, s.ip = fn, {}, 0, None, 0; s.ret = None; s.inst = None; s.enter = False; s.allocas = []; s.counts = {}; s.onret = None; s.placed = False
    def copy(s):
        f = Frame(s.fn); f.regs = dict(s.regs); f.block = s.block; f.prev = s.prev; f.ip = s.ip; f.ret = s.ret; f.inst = s.inst; f.enter = s.enter; f.allocas = list(s.allocas); f.counts = dict(s.counts); f.onret = s.onret; f.placed = s.placed
        return f

class State:
    __slots__ = ('frames', 'mem', 'ghost', 'pc', 'dead', 'exc', 'model', 'result', 'notes', 'caught', 'invs', 'key', 'wide')
    def __init__(s):
        s.frames = []; s.mem = {}; s.ghost = {}; s.pc = []; s.dead = frozenset(); s.exc = None; s.model = None; s.result = None; s.notes = (); s.caught = (); s.invs = (); s.key = None; s.wide = {}
    def copy(s):
        n = State(); n.frames = [f.copy() for f in s.frames]; n.mem = dict(s.mem); n.ghost = dict(s.ghost); n.pc = list(s.pc); n.dead = s.dead; n.exc = s.exc; n.model = s.model; n.result = s.result; n.notes = s.notes; n.caught = s.caught; n.invs = s.invs; n.wide = dict(s.wide)
        return n
    def assume(s, c):
        c = norm(c)
        if c is True: return
        if c is False: c = z3.BoolVal(False)
        s.pc.append(c)
        s.model = None if s.model is None or not z3.is_true(s.model.eval(c, True)) else s.model

class Obligation:
    __slots__ = ('name', 'pc', 'cond', 'where', 'kind', 'notes', 'status', 'detail', 'backend', 'time', 'model', 'harness')
    def __init__(s, name, pc, cond, where, kind, notes): s.name, s.pc, s.cond, s.where, s.kind, s.notes = name, pc, cond, where, kind, notes; s.status = None; s.detail = ''; s.backend = None; s.time = 0; s.model = None; s.harness = ''

class Module:
    def __init__(self, data):
        self.fns = {f['name']: f for f in data['functions']}
        self.globs = {g['name']: g for g in data['globals']}
        self.loops = {}; self.info = {}
    def fn_loops(self, fn):
        """natural loops of a function: header -> set of blocks"""
        n = fn['name']
        if n in self.loops: return self.loops[n]
        B = fn['blocks']; succ = []
        for b in B:
            t = b[-1]
            if t['op'] == 'br': s = list(t['d'])
            elif t['op'] == 'switch': s = [t['def']] + [c[1] for c in t['cases']]
            elif t['op'] == 'invoke': s = [t['nd'], t['ud']]
            else: s = []
            succ.append(s)
        pred = [[] for _ in B]
        for i, s in enumerate(succ):
            for j in s: pred[j].append(i)
        # dominators (iterative, sets; functions are small)
        order, seen = [], set()
        def dfs(r):
            stack = [(r, iter(succ[r]))]; seen.add(r)
            while stack:
                v, it = stack[-1]
                for w in it:
                    if w not in seen: seen.add(w); stack.append((w, iter(succ[w]))); break
                else: order.append(v); stack.pop()
        dfs(0)
        rpo = order[::-1]; dom = {b: set(rpo) for b in rpo}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in pred[b] if p in dom]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        loops = {}
        for b in rpo:
            for h in succ[b]:
                if h in dom[b]:
                    body = loops.setdefault(h, {h})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(p for p in pred[x] if p in dom)
                elif rpo.index(h) <= rpo.index(b):
                    raise Unsupported('irreducible control flow in ' + fn['dem'])
        self.loops[n] = loops
        # topological order of the blocks with every loop contiguous, join blocks, liveness
        inl = {b: [h for h in loops if b in loops[h]] for b in rpo}
        for b in inl: inl[b].sort(key=lambda h: -len(loops[h]))
        indeg = {b: 0 for b in rpo}
        for b in rpo:
            for t in set(succ[b]):
                if not (t in loops and b in loops[t]): indeg[t] += 1
        fin, ready, last = [], [0], ()
        while ready:
            def pr(b):
                k = 0
                for x, y in zip(inl[b], last):
                    if x == y: k += 1
                    else: break
                return (-k, rpo.index(b))
            ready.sort(key=pr); b = ready.pop(0); fin.append(b); last = inl[b]
            for t in set(succ[b]):
                if not (t in loops and b in loops[t]):
                    indeg[t] -= 1
                    if indeg[t] == 0: ready.append(t)
        order = {b: i for i, b in enumerate(fin)}
        joins = {b for b in rpo if len(set(p for p in pred[b] if p in dom)) > 1}
        def uses(I):
            out = []
            def rec(o):
                if isinstance(o, bool): return
                if isinstance(o, int): out.append(o)
            for o in I.get('ops', ()): rec(o)
            for o in I.get('args', ()): rec(o)
            if 'cond' in I: rec(I['cond'])
            if 'base' in I: rec(I['base'])
            for v in I.get('var', ()): rec(v[0])
            if isinstance(I.get('callee'), int): out.append(I['callee'])
            return out
        live = {b: set() for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(fin):
                l = set()
                for t in succ[b]:
                    l |= live[t]
                    for I in B[t]:
                        if I['op'] != 'phi': break
                        l.discard(I['id'])
                        for pb, o in I['in']:
                            if pb == b and isinstance(o, int): l.add(o)
                for I in reversed(B[b]):
                    if I['op'] == 'phi': continue
                    l.discard(I.get('id')); l |= set(uses(I))
                for I in B[b]:
                    if I['op'] != 'phi': break
                    l.add(I['id'])
                if l != live[b]: live[b] = l; ch = True
        self.info[n] = dict(order=order, joins=joins, inl=inl, live=live, succ=succ, uses=uses, cache={})
        return loops
    def live_at(self, fn, block, ip):
        """registers live just before instruction ip of a block (phis already placed)"""
        self.fn_loops(fn); inf = self.info[fn['name']]
        k = (block, ip)
        if k in inf['cache']: return inf['cache'][k]
        B = fn['blocks']; l = set()
        for t in inf['succ'][block]:
            l |= inf['live'][t]
            for I in B[t]:
                if I['op'] != 'phi': break
                l.discard(I['id'])
                for pb, o in I['in']:
                    if pb == block and isinstance(o, int): l.add(o)
        blk = B[block]
        for j in range(len(blk) - 1, ip - 1, -1):
            I = blk[j]
            if I['op'] == 'phi': break
            l.discard(I.get('id')); l |= set(inf['uses'](I))
        inf['cache'][k] = l
        return l

def tw(t):
    """bit width of a scalar type"""
    if t == 'double': return 64
    if t == 'float': return 32
    if t == 'ptr': return 64
    if isinstance(t, str) and t[0] == 'i': return int(t[1:])
    raise Unsupported(f'type {t}')
def tsize(t):
    if t == 'ptr' or t == 'double': return 8
    if t == 'float': return 4
    if t == 'fp80': return 16
    if isinstance(t, str) and t[0] == 'i': return (int(t[1:]) + 7) // 8
    if isinstance(t, dict):
        if t['k'] == 'struct': return t['size']
        if t['k'] == 'array': return t['n'] * t['es']
    raise Unsupported(f'size of {t}')

class Exec:
    def __init__(self, module, contracts=None, cfg=None):
        self.m = module
        self.contracts = contracts or {}       # predicate/str -> handler
        self._cc = {}
        self.cfg = dict(feas_timeout=2000, max_states=20000, max_rounds=40, bmc_bound=6, time_limit=600)
        self.cfg.update(cfg or {})
        self.objs = {}
        self._inc = None
        self.nobj = itertools.count(1)
        self.globobj = {}
        self.obls = []; self.shaky = []
        self.mode = PROOF
        self.cand_hooks = []      # functions (ex, view) -> list of (name, closure(view)->bool)
        self.measure_hooks = []
        self.stats = dict(paths=0, feas=0, loops=0, inv_kept=0, inv_cands=0, rounds=0, feas_time=0.0, trivial=0, steps=0)
        self.assumed = {}         # contract name -> uses (evidence)
        self.verified_fns = set()
        self.t0 = time.time()
        self.loop_report = []
        self.spec = None
        self.spec_axioms = None   # callable(list of exprs) -> list of unfold axioms
        self.check_termination = True
        self.ub_checks = True
        self.unroll = {}          # function demangled regex -> True: loops there are unrolled fully (complete: bound by constants)
        self.hints = []
        self.exc_id = itertools.count(1)

    def sx(self, st, v, w, to=64):
        """sign extension; sums known not to overflow on this path are extended operand-wise"""
        if isz(v) and z3.is_bv(v):
            k = st.wide.get(v.get_id())
            if k is not None and to == 64: return k[1]
        return sext(v, w, to)
    # ---------- objects
    def new_obj(self, st, name, size, kind, base=None, ro=False):
        i = next(self.nobj)
        self.objs[i] = Obj(i, name, size, kind, ro)
        st.mem[i] = Mem({}, base)
        return i
    def sym_bytes(self, st, name, size, kind='input', ro=True):
        """a fresh object holding `size` arbitrary bytes"""
        return self.new_obj(st, name, size, kind, node_array(fresh_name(name)), ro)
    def glob(self, st, name):
        if name in self.m.fns: return FnPtr(name)
        g = self.m.globs.get(name)
        if g is None: raise Unsupported('global ' + name)
        if 'alias' in g: return self.glob(st, g['alias'])
        if name in self.globobj:
            i = self.globobj[name]
        else:
            i = next(self.nobj); self.objs[i] = Obj(i, name, g['size'], 'global', g['const']); self.globobj[name] = i
        if i not in st.mem:
            if g.get('ext'):
                st.mem[i] = Mem({}, node_array('ext_' + name))
            elif 'init' in g:
                st.mem[i] = Mem({}, Node('zero', None))
                cells = {}
                self.flatten(st, g['init'], 0, cells)
                if g['t'] != 'ptr' and isinstance(g['t'], dict) and g['t'].get('k') == 'array' and g['t']['es'] == 1 and all(n == 1 for n, _ in cells.values()):
                    st.mem[i] = Mem({}, Node('const', bytes(cells[k][1] if k in cells else 0 for k in range(g['size']))))
                else: st.mem[i].cells = cells
        return Ptr(i, 0)
    def flatten(self, st, c, off, cells):
        k = c['c']
        if k == 'int': cells[off] = ((c['w'] + 7) // 8, int(c['v']))
        elif k == 'fp': cells[off] = (c['w'] // 8, int(c['v']))
        elif k == 'null': cells[off] = (8, NULL)
        elif k == 'nulloff': cells[off] = (8, Ptr(None, c['o'] & mask(64)))
        elif k == 'glob': cells[off] = (8, ('glob', c['n'], c['o']))
        elif k in ('zero', 'undef'): pass
        elif k == 'agg':
            t = c['t']
            if t['k'] == 'struct':
                for (o, et), e in zip(t['el'], c['el']): self.flatten(st, e, off + o, cells)
            else:
                for j, e in enumerate(c['el']): self.flatten(st, e, off + j * t['es'], cells)
        elif k in ('expr', 'unknown'): cells[off] = (8, ('unsupported', str(c)[:200]))
        else: raise Unsupported('const ' + str(c)[:200])

    # ---------- operands
    def const(self, st, c):
        k = c['c']
        if k == 'int':
            if c['w'] == 1: return bool(int(c['v']))
            return int(c['v'])
        if k == 'fp': return int(c['v'])
        if k == 'null': return NULL
        if k == 'nulloff': return Ptr(None, c['o'] & mask(64))
        if k == 'undef':
            t = c['t']
            return self.undef(t)
        if k == 'glob':
            p = self.glob(st, c['n'])
            if isinstance(p, FnPtr): return p
            return Ptr(p.obj, c['o'] & mask(64)) if c['o'] else p
        if k == 'zero': return self.zero(c['t'])
        if k == 'agg': return [self.const(st, e) for e in c['el']]
        raise Unsupported('constant ' + json.dumps(c)[:200])
    def undef(self, t):
        if isinstance(t, dict):
            if t['k'] == 'struct': return [self.undef(e) for _, e in t['el']]
            return [self.undef(t['t']) for _ in range(t['n'])]
        if t == 'ptr': return Ptr(None, z3.BitVec(fresh_name('undefptr'), 64))
        if t == 'i1': return z3.Bool(fresh_name('undef'))
        return z3.BitVec(fresh_name('undef'), tw(t))
    def zero(self, t):
        if isinstance(t, dict):
            if t['k'] == 'struct': return [self.zero(e) for _, e in t['el']]
            return [self.zero(t['t']) for _ in range(t['n'])]
        if t == 'ptr': return NULL
        if t == 'i1': return False
        return 0
    def val(self, st, o):
        if isinstance(o, int):
            return st.frames[-1].regs[o]
        if o is None: return None
        return self.const(st, o)

    # ---------- solver
    def check(self, pc, extra=(), timeout=None, axioms=True):
        s = z3.Solver()
        s.set('timeout', timeout or self.cfg['feas_timeout'])
        for c in pc: s.add(c)
        for c in extra: s.add(zb(c))
        if self.spec_axioms and axioms:
            for a in self.spec_axioms(list(pc) + [zb(c) for c in extra]): s.add(a)
        t = time.time()
        r = s.check()
        self.stats['feas'] += 1; self.stats['feas_time'] += time.time() - t
        if self.cfg.get('debug') and time.time() - t > 0.3: print('slow', r, time.time() - t, len(pc), axioms, str(extra)[:200])
        if r == z3.sat: return 'sat', s.model()
        if r == z3.unsat: return 'unsat', None
        if self.cfg.get('ints') and cvc5_check(s, 10, True) == 'unsat': return 'unsat', None
        return 'unknown', None
    def inc_check(self, pc, cond):
        """feasibility with an incremental solver that shares the common prefix of path conditions"""
        if self._inc is None:
            self._inc = z3.Solver(); self._inc.set('timeout', self.cfg['feas_timeout']); self._stk = []; self._incn = 0
        k = 0
        for x, y in zip(self._stk, pc):
            if x.eq(y): k += 1
            else: break
        if len(self._stk) > k: self._inc.pop(len(self._stk) - k); del self._stk[k:]
        for c in pc[k:]: self._inc.push(); self._inc.add(c); self._stk.append(c)
        t = time.time()
        self._inc.push(); self._inc.add(cond)
        r = self._inc.check(); m = self._inc.model() if r == z3.sat else None
        self._inc.pop()
        self.stats['feas'] += 1; self.stats['feas_time'] += time.time() - t
        return ('sat', m) if r == z3.sat else ('unsat', None) if r == z3.unsat else ('unknown', None)
    def feasible(self, st, cond):
        """is pc /\\ cond satisfiable? unknown counts as feasible"""
        cond = norm(cond)
        if cond is True: return True, st.model
        if cond is False: return False, None
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(cond, True)): return True, st.model
            except z3.Z3Exception: pass
        r, m = self.inc_check(st.pc, cond) if self.cfg.get('inc', True) else self.check(st.pc, [cond], axioms=False)
        return r != 'unsat', m
    def must(self, st, cond):
        cond = norm(cond)
        if isinstance(cond, bool): return cond
        if st.model is not None and z3.is_false(st.model.eval(cond, True)): return False
        r, m = self.check(st.pc, [z3.Not(cond)])
        if r == 'sat' and st.model is None: st.model = None
        return r == 'unsat'

    def must_hard(self, st, cond):
        cond = norm(cond)
        if isinstance(cond, bool): return cond
        if self.check(st.pc, [z3.Not(cond)], timeout=10000)[0] == 'unsat': return True
        q = z3.Solver(); q.add(*st.pc, z3.Not(cond)); return cvc5_check(q, 10, True) == 'unsat'

    # ---------- obligations
    def where(self, st):
        for f in reversed(st.frames):
            blk = f.fn['blocks'][f.block]
            ip = min(f.ip, len(blk) - 1)
            I = blk[ip]
            fl = I.get('fl', '')
            if fl and '/usr/' not in fl and I.get('ln'): return f"{os.path.basename(fl)}:{I['ln']}"
        return '?'
    def fname(self, st):
        for f in reversed(st.frames):
            d = f.fn['dem']
            if 'Bomba' in d.split('(')[0]: return short(d)
        return short(st.frames[-1].fn['dem']) if st.frames else '?'
    def oblige(self, st, cond, name, kind='post', check_now=False):
        cond = norm(cond)
        if cond is True:
            self.stats['trivial'] += 1
            return
        self.obls.append(Obligation(f'{name} @ {self.fname(st)}' if st.frames else name, list(st.pc), zb(cond), self.where(st) if st.frames else '', kind, st.notes))
    def ub(self, st, cond, name):
        """undefined-behaviour obligation; afterwards the path continues under the condition"""
        cond = norm(cond)
        if cond is True: self.stats['trivial'] += 1; return True
        if self.ub_checks: self.oblige(st, cond, name, 'safety')
        if cond is False: return False
        st.assume(cond)
        return True

    # ---------- memory access
    def inbounds(self, st, p, n, what):
        if not isinstance(p, Ptr): self.oblige(st, False, f'{what} through a function pointer', 'safety'); return False
        if p.obj is None:
            self.oblige(st, False, f'{what} through null/invalid pointer', 'safety'); return False
        if p.obj in st.dead:
            self.oblige(st, False, f'{what} of dead object {self.objs[p.obj].name}', 'safety'); return False
        o = self.objs[p.obj]
        size = o.size
        nn = n
        if isinstance(size, int) and isinstance(p.off, int) and isinstance(n, int):
            ok = sgn(p.off, 64) >= 0 and p.off + n <= size
        else:
            ok = AND(ULE(n, size), ULE(p.off, SUB(size, n)))
        return self.ub(st, ok, f'{what} in bounds of {o.name}')
    def load(self, st, p, t):
        if isinstance(t, dict):
            if t['k'] == 'struct': return [self.load(st, Ptr(p.obj, add64(p.off, o)), et) for o, et in t['el']]
            return [self.load(st, Ptr(p.obj, add64(p.off, j * t['es'])), t['t']) for j in range(t['n'])]
        n = tsize(t)
        return self.rd(st, p, n, t)
    def rd(self, st, p, n, t):
        m = st.mem[p.obj]
        off = p.off
        if isinstance(off, int):
            c = m.cells.get(off)
            if c is not None and c[0] == n: return self.cv(st, c[1], t, n)
            over = [(o, c) for o, c in m.cells.items() if o < off + n and off < o + c[0]]
            if not over:
                if m.base is None:
                    if t == 'ptr': v = self.lazy_ptr(st, p)
                    else: v = z3.BitVec(fresh_name(f'uninit_{self.objs[p.obj].name}'), 8 * n)
                    m2 = m.copy(); m2.cells[off] = (n, v); st.mem[p.obj] = m2
                    return self.cv(st, v, t, n)
                if t == 'ptr':
                    if m.base.k == 'zero': return NULL
                    v = self.lazy_ptr(st, p)
                    m2 = m.copy(); m2.cells[off] = (n, v); st.mem[p.obj] = m2
                    return v
            bs = [self.rbyte(st, p.obj, m, off + j) for j in range(n)]
            return self.cv(st, self.cat(bs), t, n)
        # symbolic offset
        if t == 'ptr':
            h = getattr(self, 'field_hook', {}).get(p.obj)
            if h: return h(st, off)
            raise NeedSplit(p)
        r = self.part(st, p.obj, off, n)
        if r is None: raise NeedSplit(p)
        keep, m = r
        if keep: return self.cv(st, self.cat([read8(m.base, add64(off, j)) for j in range(n)]), t, n)
        if m.base is None:
            m2 = Mem({}, node_array(fresh_name('uninit'))); st.mem[p.obj] = m2; m = m2
        return self.cv(st, self.cat([read8(m.base, add64(off, j)) for j in range(n)]), t, n)
    def lazy_ptr(self, st, p):
        raise Unsupported(f'load of an uninitialised pointer from {self.objs[p.obj].name}+{p.off}')
    def has_ptr_cells(self, m): return any(not (isinstance(v, (int, bool)) or isz(v)) for _, v in m.cells.values())
    def flush(self, st, obj):
        m = st.mem[obj]
        if not m.cells: return m
        base = m.base or node_array(fresh_name('uninit'))
        for o in sorted(m.cells):
            n, v = m.cells[o]
            for j, b in enumerate(self.split(v, n)): base = Node('w', (o + j, b), base)
        m2 = Mem({}, base); st.mem[obj] = m2
        return m2
    def part(self, st, obj, off, n):
        """for an access to [off, off+n) with a symbolic position in an object that holds pointers: flushes the
        cells it may overlap and keeps the others (proved disjoint); None if a pointer may be overlapped"""
        m = st.mem[obj]
        if not self.has_ptr_cells(m): return {}, self.flush(st, obj)
        keep = {}; rest = {}
        for o, c in m.cells.items():
            if isinstance(off, int) and o + c[0] <= off: keep[o] = c; continue
            if isinstance(off, int) and isinstance(n, int) and o >= off + n: keep[o] = c; continue
            far = AND(ULE(o + c[0], off)) if not isinstance(off, int) else False
            end = ADD(off, n)
            apart = OR(far, AND(ULE(end, o), ULE(off, end)), EQ(n, 0))
            if self.must(st, apart) or self.has_ptr_cells(Mem({o: c})) and self.must_hard(st, apart): keep[o] = c
            else: rest[o] = c
        if self.has_ptr_cells(Mem(rest)): return None
        base = m.base or node_array(fresh_name('uninit'))
        for o in sorted(rest):
            k, v = rest[o]
            for j, b in enumerate(self.split(v, k)): base = Node('w', (o + j, b), base)
        st.mem[obj] = Mem(dict(keep), base)
        return keep, Mem({}, base)
    def split(self, v, n):
        if not (isinstance(v, (int, bool)) or isz(v)): raise Unsupported('bytes of a pointer')
        if isinstance(v, (int, bool)): return [(int(v) >> (8 * j)) & 255 for j in range(n)]
        if z3.is_bool(v): v = bv(v, 8)
        if v.size() < 8 * n: v = z3.ZeroExt(8 * n - v.size(), v)
        if n == 1: return [v]
        return [simp(z3.Extract(8 * j + 7, 8 * j, v)) for j in range(n)]
    def rbyte(self, st, obj, m, i):
        for o, (n, v) in m.cells.items():
            if o <= i < o + n: return self.split(v, n)[i - o]
        if m.base is None: return z3.BitVec(f'uninit_{obj}_{i}', 8)
        return read8(m.base, i)
    def cat(self, bs):
        if all(isinstance(b, int) for b in bs): return int.from_bytes(bytes(bs), 'little')
        if len(bs) == 1: return bs[0]
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))
    def cv(self, st, v, t, n):
        if isinstance(v, tuple):
            if v[0] == 'glob':
                p = self.glob(st, v[1])
                return p if isinstance(p, FnPtr) else Ptr(p.obj, v[2] & mask(64))
            raise Unsupported('initialiser ' + v[1])
        if t == 'ptr':
            if isinstance(v, (Ptr, FnPtr)): return v
            if isinstance(v, int) and v == 0: return NULL
            r = self.int_to_ptr(v)
            if r is not None: return r
            raise Unsupported('integer loaded as pointer')
        if isinstance(v, (Ptr, FnPtr)):
            v = self.ptr_to_int(v)
        w = tw(t)
        if w == 1:
            if isinstance(v, int): return bool(v & 1)
            return simp(z3.Extract(0, 0, v) == 1) if z3.is_bv(v) else v
        if isz(v) and z3.is_bool(v): v = bv(v, w)
        if isz(v) and v.size() > w: v = z3.Extract(w - 1, 0, v)
        if isz(v) and v.size() < w: v = z3.ZeroExt(w - v.size(), v)
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): v &= mask(w)
        return norm(v)
    def ptr_to_int(self, p):
        if isinstance(p, FnPtr): return z3.BitVec('addr_fn_' + p.name, 64)
        if p.obj is None: return p.off
        return add64(z3.BitVec(f'addr_{p.obj}', 64), p.off)
    def int_to_ptr(self, v):
        if isinstance(v, int): return Ptr(None, v)
        v = z3.simplify(v, elim_sign_ext=False)
        parts = list(v.children()) if z3.is_app_of(v, z3.Z3_OP_BADD) else [v]
        addr = [q for q in parts if z3.is_const(q) and q.decl().name().startswith('addr_') and q.decl().name()[5:].isdigit()]
        if len(addr) == 1:
            off = 0
            for q in parts:
                if q is not addr[0]: off = add64(off, q)
            return Ptr(int(addr[0].decl().name()[5:]), off)
        return None
    def store(self, st, p, v, t):
        if isinstance(t, dict):
            if t['k'] == 'struct':
                for (o, et), e in zip(t['el'], v): self.store(st, Ptr(p.obj, add64(p.off, o)), e, et)
            else:
                for j, e in enumerate(v): self.store(st, Ptr(p.obj, add64(p.off, j * t['es'])), e, t['t'])
            return
        self.wr(st, p, tsize(t), v)
    def wr(self, st, p, n, v):
        if isz(v) and z3.is_bool(v): v = bv(v, 8 * n)
        if isinstance(v, bool): v = int(v)
        m = st.mem[p.obj]
        off = p.off
        if isinstance(off, int):
            m2 = m.copy()
            for o, c in m.cells.items():
                if o < off + n and off < o + c[0] and not (o == off and c[0] == n):
                    # partial overlap: keep surviving bytes
                    bs = None
                    if not (o >= off and o + c[0] <= off + n):
                        try: bs = self.split(c[1], c[0])
                        except Unsupported: bs = [z3.BitVec(fresh_name('ptrbyte'), 8) for _ in range(c[0])]
                    del m2.cells[o]
                    if bs:
                        for j, b in enumerate(bs):
                            if not (off <= o + j < off + n): m2.cells[o + j] = (1, b)
            m2.cells[off] = (n, v)
            st.mem[p.obj] = m2
            return
        if not (isinstance(v, (int,)) or isz(v)): raise NeedSplit(p)
        r = self.part(st, p.obj, off, n)
        if r is None: raise NeedSplit(p)
        keep, m = r
        base = m.base or node_array(fresh_name('uninit'))
        for j, b in enumerate(self.split(v, n)): base = Node('w', (add64(off, j), b), base)
        st.mem[p.obj] = Mem(dict(keep), base)
    def memcpy(self, st, d, s, n, what='memcpy'):
        """n: int or BV64"""
        n = norm(n)
        if isinstance(n, int) and n == 0: return True
        cond0 = EQ(n, 0)
        if isz(n) and (s.obj is None or d.obj is None):
            # length must be zero for null pointers
            return self.ub(st, cond0, f'{what} with null pointer needs length 0')
        if isz(n):
            # bounds only matter when n > 0 but LLVM/C++ require valid ranges anyway
            so, do = self.objs[s.obj].size, self.objs[d.obj].size
            ok = AND(ULE(s.off, so), ULE(n, SUB(so, s.off)), ULE(d.off, do), ULE(n, SUB(do, d.off)))
            for q in (s, d):
                if q.obj in st.dead:
                    if not self.ub(st, cond0, f'{what} of dead object {self.objs[q.obj].name}'): return False
            if not self.ub(st, ok, f'{what} in bounds ({self.objs[s.obj].name} -> {self.objs[d.obj].name})'): return False
        else:
            if not self.inbounds(st, s, n, what + ' read'): return False
            if not self.inbounds(st, d, n, what + ' write'): return False
        if isinstance(n, int) and isinstance(d.off, int) and isinstance(s.off, int) and n <= 4096:
            sm = st.mem[s.obj]
            if sm.base is not None and sm.base.k != 'zero' and not sm.cells and n > 64:
                pass
            else:
                # exact copy of cells
                cells = [(o, c) for o, c in sm.cells.items() if o < s.off + n and s.off < o + c[0]]
                new = []
                covered = set()
                for o, c in cells:
                    if s.off <= o and o + c[0] <= s.off + n:
                        new.append((o - s.off, c)); covered.update(range(o - s.off, o - s.off + c[0]))
                    else:
                        bs = self.split(c[1], c[0])
                        for j, b in enumerate(bs):
                            k = o + j - s.off
                            if 0 <= k < n: new.append((k, (1, b))); covered.add(k)
                if sm.base is None or n <= 64:
                    for k in range(n):
                        if k not in covered:
                            if sm.base is None: continue  # uninitialised bytes: stay arbitrary
                            new.append((k, (1, read8(sm.base, s.off + k))))
                    # clear destination range
                    if not all(k in covered for k in range(n)) and sm.base is None:
                        dm = st.mem[d.obj].copy()
                        for o in [o for o, c in dm.cells.items() if o >= d.off and o + c[0] <= d.off + n]: del dm.cells[o]
                        st.mem[d.obj] = dm
                    # merge consecutive single bytes is unnecessary; loads recombine
                    for k, c in new: self.wr(st, Ptr(d.obj, d.off + k), c[0], c[1])
                    return True
        r = self.part(st, s.obj, s.off, n)
        if r is None: raise Unsupported('symbolic memcpy out of an object holding pointers')
        keep, sm = r
        src = sm.base or node_array(fresh_name('uninit'))
        if sm.base is None: st.mem[s.obj] = Mem(dict(keep), src)
        if isinstance(n, int) and isinstance(d.off, int) and s.obj != d.obj: # what is overwritten entirely does not matter
            dm = st.mem[d.obj].copy()
            for o in [o for o, c in dm.cells.items() if o >= d.off and o + c[0] <= d.off + n]: del dm.cells[o]
            st.mem[d.obj] = dm
        r = self.part(st, d.obj, d.off, n)
        if r is None: raise Unsupported('symbolic memcpy into an object holding pointers')
        keep, dm = r
        base = dm.base or node_array(fresh_name('uninit'))
        st.mem[d.obj] = Mem(dict(keep), Node('copy', (d.off, src, s.off, n), base))
        return True
    def memset(self, st, d, v, n):
        n = norm(n)
        if isinstance(n, int) and n == 0: return True
        if isinstance(n, int):
            if not self.inbounds(st, d, n, 'memset'): return False
            if isinstance(d.off, int) and n <= 4096:
                if isinstance(v, int) and v == 0:
                    m = st.mem[d.obj].copy()
                    rng = range(d.off, d.off + n)
                    whole = isinstance(self.objs[d.obj].size, int) and d.off == 0 and n == self.objs[d.obj].size
                    if whole: st.mem[d.obj] = Mem({}, Node('zero', None)); return True
                    k = 0
                    while k < n:
                        step = 8 if k + 8 <= n and (d.off + k) % 8 == 0 else 1
                        self.wr(st, Ptr(d.obj, d.off + k), step, 0); k += step
                    return True
                for k in range(n): self.wr(st, Ptr(d.obj, d.off + k), 1, v)
                return True
        else:
            o = self.objs[d.obj].size
            if not self.ub(st, AND(ULE(d.off, o), ULE(n, SUB(o, d.off))), 'memset in bounds'): return False
        r = self.part(st, d.obj, d.off, n)
        if r is None: raise Unsupported('symbolic memset of an object holding pointers')
        keep, dm = r
        base = dm.base or node_array(fresh_name('uninit'))
        st.mem[d.obj] = Mem(dict(keep), Node('fill', (d.off, v, n), base))
        return True
    def bytes_at(self, st, p):
        """function i -> byte at p+i in the current memory (snapshot)"""
        m = st.mem[p.obj]
        if self.has_ptr_cells(m): # bytes of pointers are arbitrary
            base = m.base or node_array(fresh_name('uninit'))
            for o in sorted(m.cells):
                n, v = m.cells[o]
                bs = self.split(v, n) if isinstance(v, (int, bool)) or isz(v) else [z3.BitVec(fresh_name('ptrbyte'), 8) for _ in range(n)]
                for j, b in enumerate(bs): base = Node('w', (o + j, b), base)
            if m.base is None: st.mem[p.obj] = Mem(dict(m.cells), base)
            return lambda i: read8(base, add64(p.off, i))
        m = self.flush(st, p.obj)
        base = m.base or node_array(fresh_name('uninit'))
        if m.base is None: st.mem[p.obj] = Mem({}, base)
        return lambda i: read8(base, add64(p.off, i))

def cvc5_check(s, secs, ints=False):
    "second opinion of cvc5; ints: bit-vectors translated to integers (sound and complete modulo 2^k)"
    import tempfile, subprocess, os
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write('(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n')
        r = subprocess.run(['cvc5'] + (['--solve-bv-as-int=sum'] if ints else []) + ['--tlimit', str(secs * 1000), f.name], capture_output=True, text=True, timeout=secs + 10)
        return r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
    except Exception: return 'unknown'
    finally:
        try: os.unlink(f.name)
        except OSError: pass
class NeedSplit(Exception):
    def __init__(s, p): s.p = p

def short(d):
    d = d.replace('std::__cxx11::', 'std::').replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    d = d.replace('std::basic_string_view<char, std::char_traits<char>>', 'sv')
    out = ''; dep = 0
    for ch in d:
        if ch == '<': dep += 1
        elif ch == '>': dep -= 1
        elif dep == 0: out += ch
    i = out.find('(')
    return (out[:i] if i > 0 else out)[:90]
