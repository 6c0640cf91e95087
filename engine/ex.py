import os
from vc import *
import vc

FAIL = object()
class Throw:
    def __init__(s, ty): s.ty = ty
class ContractBag(list):
    """ordered list of (regex, handler); first match on the demangled name wins"""
    def on(self, rx):
        def d(f): self.append((re.compile(rx), f, getattr(f, '__doc__', None) or rx)); return f
        return d

STD_BASE = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt12out_of_range': '_ZTISt11logic_error',
 '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
 '_ZTISt19bad_optional_access': '_ZTISt9exception', '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt12domain_error': '_ZTISt11logic_error',
 '_ZTISt11range_error':'_ZTISt13runtime_error','_ZTISt14overflow_error':'_ZTISt13runtime_error','_ZTISt12system_error':'_ZTISt13runtime_error'}

class View:
    """named access to the loop-modified locations in some state (entry, havoced or back-edge)"""
    def __init__(s, ex, st, keys, depth, phivals): s.ex, s.st, s.keys, s.depth, s.phi = ex, st, keys, depth, phivals
    def get(s, key):
        k = key[0]
        if k == 'phi': return s.phi[key[1]]
        if k == 'cell':
            c = s.st.mem[key[1]].cells.get(key[2])
            if c is None or c[0] != key[3]: return None
            return c[1]
        if k == 'ghost': return s.st.ghost.get(key[1])
        if k == 'arr': return s.st.mem[key[1]].base
        raise KeyError(key)

class Executor(Exec):
    def __init__(self, module, contracts=None, cfg=None):
        super().__init__(module, contracts, cfg)
        self.exc_types = {}
        self.typeids = {}
        self.fp_uf = {}
        self.loop_depth = 0
        self.deadline = self.t0 + self.cfg['time_limit']
        self.bmc_cut = 0
        self._ct = {}; self._rt = {}; self.merging = self.cfg.get('merging', True)

    # ---------------------------------------------------------- exceptions
    def base_types(self, ti):
        out = [ti]
        while True:
            g = self.m.globs.get(ti)
            nxt = None
            if g and g.get('init') and g['init'].get('c') == 'agg' and len(g['init']['el']) == 3 and g['init']['el'][2].get('c') == 'glob':
                nxt = g['init']['el'][2]['n']
            elif ti in STD_BASE: nxt = STD_BASE[ti]
            if not nxt: return out
            out.append(nxt); ti = nxt
    def make_exc(self, st, ti, obj=None):
        if obj is None: obj = self.new_obj(st, 'exception', 64, 'heap')
        vt = self.new_obj(st, 'excvt', 64, 'global')
        st.mem[vt].cells = {0: (8, FnPtr('v_exc_dtor')), 8: (8, FnPtr('v_exc_dtor')), 16: (8, FnPtr('v_exc_what'))}
        m = st.mem[obj].copy(); m.cells[0] = (8, Ptr(vt, 0)); st.mem[obj] = m
        self.exc_types[obj] = ti
        return obj
    def throw(self, st, ti, obj=None):
        """start unwinding; returns True if the state continues at a landing pad, False if it escaped the harness"""
        if obj is None or obj not in self.exc_types: obj = self.make_exc(st, ti, obj)
        st.exc = obj
        return self.unwind(st)
    def unwind(self, st):
        obj = st.exc
        bases = self.base_types(self.exc_types[obj])
        while st.frames:
            f = st.frames[-1]
            I = f.fn['blocks'][f.block][f.ip] if f.ip < len(f.fn['blocks'][f.block]) else None
            if I is not None and I['op'] == 'invoke' and f.inst is I:
                ub = f.fn['blocks'][I['ud']]
                lp = next(i for i in ub if i['op'] == 'landingpad')
                sel = None
                for kind, c in lp['cl']:
                    if kind != 'catch': raise Unsupported('exception filter')
                    if c['c'] == 'null': sel = self.typeid('*'); break
                    if c['n'] in bases: sel = self.typeid(c['n']); break
                if sel is not None or lp['cleanup']:
                    f.inst = None
                    f.regs[('lp', I['ud'])] = [Ptr(obj, 0), sel or 0]
                    f.prev = f.block; f.block = I['ud']; f.ip = 0; f.enter = True; f.placed = False
                    return True
            self.pop_frame(st)
        st.result = Throw(self.exc_types[obj])
        return False
    def typeid(self, n):
        return self.typeids.setdefault(n, len(self.typeids) + 1)
    def pop_frame(self, st):
        f = st.frames.pop()
        if f.allocas: st.dead = st.dead | frozenset(f.allocas)
        return f

    # ---------------------------------------------------------- calls
    def handler(self, name):
        if name in self._cc: return self._cc[name]
        fn = self.m.fns.get(name)
        dem = fn['dem'] if fn else name
        h = None
        for rx, f, doc in self.contracts:
            if rx.search(dem): h = (f, doc); break
        self._cc[name] = h
        return h
    def push(self, st, fn, args, ret):
        if len(st.frames) > 120: raise Unsupported('call depth (recursion?) in ' + fn['dem'])
        f = Frame(fn); f.ret = ret
        for p, a in zip(fn['params'], args):
            if p.get('byval'):
                o = self.new_obj(st, 'byval', p['byval'], 'stack'); self.memcpy(st, Ptr(o, 0), a, p['byval']); f.allocas.append(o); a = Ptr(o, 0)
            f.regs[p['id']] = a
        st.frames.append(f)
        f.enter = True
        if fn['name'] not in self.verified_fns: self.verified_fns.add(fn['name'])

    def finish_call(self, st, I, rv):
        """the callee returned rv to the call/invoke instruction I of the top frame"""
        f = st.frames[-1]
        if 'id' in I: f.regs[I['id']] = rv
        if I['op'] == 'invoke':
            f.inst = None
            self.goto(st, I['nd'])
        else: f.ip += 1

    def goto(self, st, b):
        f = st.frames[-1]
        f.prev = f.block; f.block = b; f.ip = 0; f.enter = True; f.placed = False

    # ---------------------------------------------------------- running
    def run(self, st, ctx=None):
        """ctx = (depth, header, blocks) when executing a loop body. Returns outcomes [(kind, state)]."""
        work = [st]; out = []
        while work:
            if time.time() > self.deadline: raise Budget('time limit')
            s = self.pick(work)
            try: self.run_path(s, ctx, work, out)
            except NeedSplit as e:
                self.split_offset(s, e.p, work)
            if len(work) + len(out) > self.cfg['max_states']: raise Budget('too many states')
        return out

    def split_offset(self, s, p, work):
        """an access with a symbolic offset into an object holding pointers: enumerate its feasible offsets"""
        st = s
        vals = []
        pc = list(st.pc)
        while True:
            r, m = self.check(pc, [])
            if r == 'unsat': break
            if r == 'unknown' or len(vals) > 24: raise Unsupported(f'symbolic offset into {self.objs[p.obj].name}')
            v = m.eval(p.off, True).as_long(); vals.append(v); pc.append(p.off != v)
        for v in vals:
            n = st.copy(); n.assume(p.off == v)
            # substitute the offset wherever it is held in registers
            for f in n.frames:
                for k, x in list(f.regs.items()):
                    if isinstance(x, Ptr) and x.obj == p.obj and isz(x.off):
                        y = simp(z3.substitute(x.off, (p.off, z3.BitVecVal(v, 64))))
                        f.regs[k] = Ptr(x.obj, y)
            n.notes = n.notes
            work.append(n)

    def run_path(self, st, ctx, work, out):
        while True:
            if not st.frames:
                out.append(('end', st)); return
            f = st.frames[-1]
            if ctx and (len(st.frames) < ctx[0] or (len(st.frames) == ctx[0] and f.enter and f.block not in ctx[2])):
                out.append(('exit', st)); return
            if f.enter:
                blk = f.fn['blocks'][f.block]
                loops = self.m.fn_loops(f.fn)
                if f.block in loops:
                    if ctx and len(st.frames) == ctx[0] and f.block == ctx[1] and f.prev in ctx[2]:
                        out.append(('back', st)); return
                    body = loops[f.block]
                    if f.prev not in body: f.counts[('unr', f.block)] = self.mode == PROOF and (self.is_unrolled(f.fn, body, loops) or self.const_trip(st, f, body))
                    unr = f.counts.get(('unr', f.block), False)
                    if f.prev is not None and f.prev in body and self.mode == PROOF and not unr:
                        if not (ctx and len(st.frames) == ctx[0]): raise Unsupported('unexpected back edge')
                    if not f.placed: self.phis(st, f); f.placed = True; fresh_entry = True
                    else: fresh_entry = False
                    if self.mode == PROOF and not unr:
                        if fresh_entry and self.merging and work: work.append(st); return
                        for x in self.do_loop(st, f.block, body): work.append(x)
                        return
                    k = ('it', f.block)
                    if not fresh_entry: pass
                    elif f.prev in body: f.counts[k] = f.counts.get(k, 0) + 1
                    else: f.counts[k] = 0
                    if f.counts[k] > (self.cfg['bmc_bound'] if self.mode == BMC else 70):
                        if self.mode == BMC: self.bmc_cut += 1; return
                        raise Unsupported('unrolled loop exceeds its constant bound in ' + f.fn['dem'])
                if not f.placed:
                    self.phis(st, f); f.placed = True
                    if self.merging and work and f.block in self.m.info[f.fn['name']]['joins']: work.append(st); return
                f.enter = False
            r = self.step(st, f, work)
            if r == 'park':
                if self.merging and work: work.append(st); return
            if r is False: self.stats['paths'] += 1; return

    def const_trip(self, st, f, body, limit=33):
        """a counted loop whose number of iterations is a constant is executed exactly (complete, no bound involved)"""
        fn = f.fn; B = fn['blocks']
        key = ('ct', fn['name'], f.block)
        if key not in self._ct:
            defs = {I['id']: I for b in body for I in B[b] if 'id' in I}
            inv = lambda o: isinstance(o, dict) or (isinstance(o, int) and o not in defs)
            cs = []
            for I in B[f.block]:
                if I['op'] != 'phi' or isinstance(I['t'], dict): continue
                bk = [o for b, o in I['in'] if b in body]
                steps = set()
                for o in bk:
                    d = defs.get(o) if isinstance(o, int) else None
                    if d and d['op'] in ('add', 'sub') and d['ops'][0] == I['id'] and isinstance(d['ops'][1], dict) and d['ops'][1]['c'] == 'int':
                        c = int(d['ops'][1]['v']); steps.add(c if d['op'] == 'add' else -c)
                    elif d and d['op'] == 'getelementptr' and d['base'] == I['id'] and not d['var']: steps.add(d['off'])
                    else: steps.add(None)
                if len(steps) != 1 or None in steps: continue
                for b in body:
                    t = B[b][-1]
                    if t['op'] == 'br' and 'cond' in t and isinstance(t['cond'], int) and any(d not in body for d in t['d']):
                        c = defs.get(t['cond'])
                        if c and c['op'] == 'icmp' and isinstance(c['ops'][0], int) and inv(c['ops'][1]):
                            x = c['ops'][0]
                            if x in (I['id'], bk[0]): cs.append((I['id'], I['t'], steps.copy().pop(), c['pred'], c['ops'][1], x != I['id'], t['d'][0] in body))
            self._ct[key] = cs
        for pid, t, step, pred, lim, post, stay in self._ct[key]:
            v = None
            for I in B[f.block]:
                if I['op'] == 'phi' and I['id'] == pid:
                    for b, o in I['in']:
                        if b == f.prev: v = self.val(st, o)
            if isinstance(lim, int) and lim not in f.regs: continue
            l = self.val(st, lim); w = tw(t)
            if isinstance(v, Ptr) and isinstance(l, Ptr) and v.obj == l.obj: v, l, t = v.off, l.off, 'i64'
            if not isinstance(v, int) or isinstance(v, bool) or not isinstance(l, int): continue
            n = 0
            while n <= limit:
                x = (v + step) & mask(w) if post else v
                if self.icmp(pred, x, l & mask(w), t) != stay: return True
                v = (v + step) & mask(w); n += 1
        return False
    def is_unrolled(self, fn, body, loops):
        """loops to execute iteration by iteration until no path continues (complete; an 'inner' entry means loops nested in another one)"""
        for rx in self.unroll:
            if isinstance(rx, tuple):
                if rx[1] == 'inner' and re.search(rx[0], fn['dem']) and any(b is not body and set(body) < set(b) for b in loops.values()): return True
            elif re.search(rx, fn['dem']): return True
        return False

    def phis(self, st, f):
        blk = f.fn['blocks'][f.block]
        vals = []
        i = 0
        for I in blk:
            if I['op'] != 'phi': break
            for b, o in I['in']:
                if b == f.prev: vals.append((I['id'], self.val(st, o))); break
            else: raise Unsupported('phi edge')
            i += 1
        for k, v in vals: f.regs[k] = v
        f.ip = i

    def fork(self, st, cond, work):
        """returns (state_true or None, state_false or None)"""
        cond = simp(cond) if isz(cond) else cond
        if isinstance(cond, (bool, int)): return (st, None) if cond else (None, st)
        t, mt = self.feasible(st, cond)
        f, mf = self.feasible(st, z3.Not(cond))
        if t and f:
            o = st.copy()
            st.pc.append(cond); st.model = mt
            o.pc.append(z3.Not(cond)); o.model = mf
            return st, o
        if t: st.pc.append(cond); st.model = mt; return st, None
        if f: st.pc.append(z3.Not(cond)); st.model = mf; return None, st
        return None, None

    def step(self, st, f, work):
        blk = f.fn['blocks'][f.block]
        I = blk[f.ip]
        op = I['op']
        R = f.regs
        self.stats['steps'] += 1
        V = lambda o: R[o] if isinstance(o, int) else self.val(st, o)
        if op == 'load':
            p = V(I['ops'][0])
            if not self.inbounds(st, p, tsize(I['t']), 'read'): return False
            R[I['id']] = self.load(st, p, I['t'])
        elif op == 'store':
            p = V(I['ops'][1]); v = V(I['ops'][0])
            if not self.inbounds(st, p, tsize(I['ot'][0]), 'write'): return False
            if self.objs[p.obj].ro and self.objs[p.obj].kind != 'global':
                self.oblige(st, False, f'write to read-only object {self.objs[p.obj].name}', 'safety'); return False
            self.store(st, p, v, I['ot'][0])
        elif op == 'getelementptr':
            b = V(I['base'])
            off = I['off'] & mask(64)
            for o, t, scale in I['var']:
                x = V(o); w = tw(t)
                x = self.sx(st, x, w, 64) if w < 64 else x
                if isinstance(x, int): x = (x * scale) & mask(64)
                else: x = simp(x * z3.BitVecVal(scale & mask(64), 64)) if scale != 1 else x
                off = add64(off, x)
            if isinstance(b, FnPtr): raise Unsupported('gep on function')
            R[I['id']] = Ptr(b.obj, add64(b.off, off)) if not (isinstance(off, int) and off == 0) else b
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            if I.get('spec'): self._defer = []
            v = self.arith(st, I, op, V(I['ops'][0]), V(I['ops'][1]))
            if self._defer is not None: self.poison(R, I, self._defer); self._defer = None
            if v is None: return False
            R[I['id']] = v
        elif op == 'icmp':
            R[I['id']] = self.icmp(I['pred'], V(I['ops'][0]), V(I['ops'][1]), I['ot'][0])
        elif op == 'br':
            if 'cond' in I:
                a, b = self.fork(st, V(I['cond']), work)
                if a is not None and b is not None:
                    a.notes = a.notes + (f"{I.get('ln')}T",); b.notes = b.notes + (f"{I.get('ln')}F",)
                    self.goto(b, I['d'][1]); work.append(b); self.goto(a, I['d'][0])
                elif a is not None: self.goto(a, I['d'][0])
                elif b is not None: self.goto(b, I['d'][1])
                else: return False
            else: self.goto(st, I['d'][0])
            return True
        elif op == 'select':
            c, a, b = V(I['ops'][0]), V(I['ops'][1]), V(I['ops'][2])
            c = simp(c) if isz(c) else c
            pa, pb = [R.get(('poison', o)) if isinstance(o, int) else None for o in I['ops'][1:]]
            if pa is not None or pb is not None:
                ok = AND(OR(NOT(c), pa if pa is not None else True), OR(c, pb if pb is not None else True))
                if I.get('spec'): R[('poison', I['id'])] = ok
                elif not self.ub(st, ok, 'the operation behind the chosen value is defined'): return False
            if isinstance(c, (bool, int)): R[I['id']] = a if c else b
            elif isinstance(a, Ptr) or isinstance(a, FnPtr):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: R[I['id']] = Ptr(a.obj, ITE(c, a.off, b.off, 64))
                else:
                    x, y = self.fork(st, c, work)
                    if x is None and y is None: return False
                    if y is not None and x is not None:
                        y.frames[-1].regs[I['id']] = b; y.frames[-1].ip += 1; work.append(y)
                        R[I['id']] = a
                    elif x is not None: R[I['id']] = a
                    else: R[I['id']] = b
            elif isinstance(a, list):
                x, y = self.fork(st, c, work)
                if x is None and y is None: return False
                if x is not None and y is not None:
                    y.frames[-1].regs[I['id']] = b; y.frames[-1].ip += 1; work.append(y)
                    R[I['id']] = a
                else: R[I['id']] = a if x is not None else b
            else:
                t = I['t']
                R[I['id']] = OR(AND(c, a), AND(NOT(c), b)) if t == 'i1' else ITE(c, a, b, tw(t))
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            v = V(I['ops'][0]); w0 = tw(I['ot'][0]) if not isinstance(I['ot'][0], dict) else 0; t = I['t']
            if op == 'freeze': R[I['id']] = v
            elif op == 'zext': R[I['id']] = (int(v) if isinstance(v, (bool, int)) else bv(v, tw(t)) if w0 == 1 else zext(v, w0, tw(t)))
            elif op == 'sext':
                if w0 == 1: R[I['id']] = (mask(tw(t)) if v else 0) if isinstance(v, (bool, int)) else z3.If(v, z3.BitVecVal(mask(tw(t)), tw(t)), z3.BitVecVal(0, tw(t)))
                else: R[I['id']] = self.sx(st, v, w0, tw(t))
            elif op == 'trunc':
                w = tw(t)
                if isinstance(v, (bool, int)): v = int(v) & mask(w); R[I['id']] = bool(v) if w == 1 else v
                else:
                    v = simp(z3.Extract(w - 1, 0, v))
                    R[I['id']] = (simp(v == 1) if isz(v) else bool(v)) if w == 1 else v
            elif op == 'ptrtoint':
                x = self.ptr_to_int(v); w = tw(t)
                if w < 64: x = x & mask(w) if isinstance(x, int) else simp(z3.Extract(w - 1, 0, x))
                R[I['id']] = x
            elif op == 'inttoptr':
                r = self.int_to_ptr(v)
                if r is None: raise Unsupported('inttoptr')
                R[I['id']] = r
            else: R[I['id']] = v
        elif op in ('call', 'invoke'):
            return self.call(st, f, I, work)
        elif op == 'ret':
            v = V(I['ops'][0]) if I['ops'] else None
            fr = self.pop_frame(st)
            if not st.frames:
                st.result = v; return True
            if fr.onret:
                # modular call boundary used by bounded helpers
                v = fr.onret(self, st, v)
            self.finish_call(st, fr.ret, v)
            return 'park'
        elif op == 'switch':
            v = V(I['cond']); w = None
            if isinstance(v, (bool, int)):
                for c, d in I['cases']:
                    if int(c) == int(v): self.goto(st, d); return True
                self.goto(st, I['def']); return True
            bydest = {}
            for c, d in I['cases']: bydest.setdefault(d, []).append(int(c))
            rest = st
            vv = v
            for d, cs in bydest.items():
                cond = simp(z3.Or(*[zb(vv) == bool(c) if z3.is_bool(vv) else vv == c for c in cs]))
                a, b = self.fork(rest, cond, work)
                if a is not None:
                    if b is not None and a is rest:
                        self.goto(a, d); work.append(a)
                    else:
                        self.goto(a, d); work.append(a)
                rest = b
                if rest is None: break
            if rest is not None: self.goto(rest, I['def']); work.append(rest)
            return None if False else self._switched()
        elif op == 'unreachable':
            self.oblige(st, False, 'unreachable code is not reached', 'safety'); return False
        elif op == 'alloca':
            if I['size'] < 0: raise Unsupported('variable alloca')
            o = self.new_obj(st, 'local', I['size'], 'stack'); f.allocas.append(o)
            R[I['id']] = Ptr(o, 0)
        elif op == 'extractvalue':
            v = V(I['ops'][0])
            for ix in I['ix']: v = v[ix]
            R[I['id']] = v
        elif op == 'insertvalue':
            a, v = V(I['ops'][0]), V(I['ops'][1])
            def ins(a, ix):
                a = list(a)
                a[ix[0]] = v if len(ix) == 1 else ins(a[ix[0]], ix[1:])
                return a
            R[I['id']] = ins(a, I['ix'])
        elif op == 'landingpad':
            R[I['id']] = R[('lp', f.block)]
        elif op == 'resume':
            self.pop_frame_keep(st)
            if not self.unwind(st): pass
            return True
        elif op in ('fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fptrunc', 'fpext', 'fneg'):
            r = self.fp(I, op, [V(o) for o in I['ops']], st)
            if r is None: return False
            R[I['id']] = r
        elif op == 'fence': pass
        else: raise Unsupported('instruction ' + op)
        f.ip += 1
        return True
    def _switched(self): return False
    def pop_frame_keep(self, st): self.pop_frame(st)

    def fp(self, I, op, a, st):
        """floating point is uninterpreted (operations are deterministic functions of their operand bits), or IEEE 754 if the proof asks for it"""
        rt = 'i1' if op == 'fcmp' else I['t']
        if self.cfg.get('fp') == 'smt': return self.fp_smt(I, op, a, st, rt)
        key = (op, I.get('pred'), tuple(map(str, I['ot'])), str(rt))
        if op == 'fneg' and False: pass
        ws = [tw(t) for t in I['ot']]
        if key not in self.fp_uf:
            rs = z3.BoolSort() if rt == 'i1' else z3.BitVecSort(tw(rt))
            self.fp_uf[key] = z3.Function('fp_' + '_'.join(map(str, key)), *[z3.BitVecSort(w) for w in ws], rs)
        return self.fp_uf[key](*[bv(x, w) for x, w in zip(a, ws)])

    _defer = None
    def ub(self, st, cond, name):
        if self._defer is not None: self._defer.append(cond if isz(cond) else z3.BoolVal(bool(cond))); return True
        return super().ub(st, cond, name)
    def poison(self, R, I, conds):
        ok = AND(*conds, *[R[('poison', o)] for o in I['ops'] if isinstance(o, int) and ('poison', o) in R]) if True else None
        R[('poison', I['id'])] = ok
    def fp_smt(self, I, op, a, st, rt):
        FS = lambda t: z3.Float64() if t == 'double' else z3.Float32()
        RNE, RTZ = z3.RNE(), z3.RTZ()
        A = [bv(x, tw(t)) for x, t in zip(a, I['ot'])]
        F = [z3.simplify(z3.fpBVToFP(x, FS(t))) if t in ('double', 'float') else x for x, t in zip(A, I['ot'])]
        out = lambda f: simp(z3.fpToIEEEBV(f))
        if op in ('sitofp', 'uitofp'): return out((z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(RNE, F[0], FS(rt)))
        if op in ('fpext', 'fptrunc'): return out(z3.fpFPToFP(RNE, F[0], FS(rt)))
        if op == 'fneg': return simp(A[0] ^ z3.BitVecVal(1 << (A[0].size() - 1), A[0].size()))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return out({'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, F[0], F[1]))
        if op in ('fptosi', 'fptoui'):
            w = tw(rt); S = FS(I['ot'][0])
            lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if op == 'fptosi' else (0, 1 << w)
            t = z3.fpRoundToIntegral(RTZ, F[0])
            if not self.ub(st, z3.And(z3.Not(z3.fpIsNaN(F[0])), z3.fpGEQ(t, z3.FPVal(lo, S)), z3.fpLT(t, z3.FPVal(hi, S))), 'a floating point value converted to an integer is in its range'): return None
            return simp((z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(RTZ, F[0], z3.BitVecSort(w)))
        if op == 'fcmp':
            p = I['pred']; p = p if isinstance(p, str) else str(p); nan = z3.Or(z3.fpIsNaN(F[0]), z3.fpIsNaN(F[1]))
            if p in ('ord', 'uno'): return simp(nan if p == 'uno' else z3.Not(nan))
            c = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[p[1:]](F[0], F[1])
            return simp(z3.And(z3.Not(nan), c) if p[0] == 'o' else z3.Or(nan, c))
        raise Unsupported('floating point ' + op)

    def arith(self, st, I, op, a, b):
        t = I['t']
        if isinstance(t, dict): raise Unsupported('vector arithmetic')
        if t == 'i1':
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return bool(int(a) ^ int(b))
                if isinstance(b, (bool, int)): return NOT(a) if b else a
                if isinstance(a, (bool, int)): return NOT(b) if a else b
                return simp(z3.Xor(a, b))
            if op in ('and', 'mul'): return AND(a, b)
            if op == 'or': return OR(a, b)
            raise Unsupported('i1 ' + op)
        w = tw(t)
        if isinstance(a, (Ptr, FnPtr)): a = self.ptr_to_int(a)
        if isinstance(b, (Ptr, FnPtr)): b = self.ptr_to_int(b)
        conc = isinstance(a, (bool, int)) and isinstance(b, (bool, int))
        if conc: a, b = int(a), int(b)
        if op in ('add', 'sub', 'mul'):
            if conc:
                r = a + b if op == 'add' else a - b if op == 'sub' else a * b
                sa, sb = sgn(a, w), sgn(b, w)
                rs = sa + sb if op == 'add' else sa - sb if op == 'sub' else sa * sb
                if I.get('nsw') and not (-(1 << (w - 1)) <= rs < (1 << (w - 1))):
                    if not self.ub(st, False, f'signed {op} does not overflow'): return None
                return r & mask(w)
            za, zb_ = bv(a, w), bv(b, w)
            if I.get('nsw'):
                if op == 'add': ok = z3.And(z3.BVAddNoOverflow(za, zb_, True), z3.BVAddNoUnderflow(za, zb_))
                elif op == 'sub': ok = z3.And(z3.BVSubNoOverflow(za, zb_), z3.BVSubNoUnderflow(za, zb_, True))
                else: ok = z3.And(z3.BVMulNoOverflow(za, zb_, True), z3.BVMulNoUnderflow(za, zb_))
                if not self.ub(st, simp(ok), f'signed {op} does not overflow'): return None
            r = simp(za + zb_ if op == 'add' else za - zb_ if op == 'sub' else za * zb_)
            if I.get('nsw') and w == 32 and op != 'mul' and isz(r):
                x, y = self.sx(st, a, 32), self.sx(st, b, 32)
                r64 = ADD(x, y) if op == 'add' else SUB(x, y)
                if isz(r64): st.wide[r.get_id()] = (r, r64)
            return r
        if op in ('and', 'or', 'xor'):
            if conc: return (a & b) if op == 'and' else (a | b) if op == 'or' else a ^ b
            za, zb_ = bv(a, w), bv(b, w)
            return simp(za & zb_ if op == 'and' else za | zb_ if op == 'or' else za ^ zb_)
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(b, int):
                if b >= w: self.ub(st, False, 'shift amount in range'); return None
            else:
                if not self.ub(st, ULT(b, w, w), 'shift amount in range'): return None
            if conc:
                if op == 'shl': return (a << b) & mask(w)
                if op == 'lshr': return a >> b
                return (sgn(a, w) >> b) & mask(w)
            za, zb_ = bv(a, w), bv(b, w)
            return simp(za << zb_ if op == 'shl' else z3.LShR(za, zb_) if op == 'lshr' else za >> zb_)
        # division
        if isinstance(b, int):
            if b == 0: self.ub(st, False, 'division by zero'); return None
        else:
            if not self.ub(st, NOT(EQ(b, 0, w)), 'division by zero'): return None
        if conc:
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            q = abs(sa) // abs(sb); q = q if (sa < 0) == (sb < 0) else -q
            return (q if op == 'sdiv' else sa - q * sb) & mask(w)
        za, zb_ = bv(a, w), bv(b, w)
        return simp(z3.UDiv(za, zb_) if op == 'udiv' else z3.URem(za, zb_) if op == 'urem' else za / zb_ if op == 'sdiv' else z3.SRem(za, zb_))

    def icmp(self, pred, a, b, t):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if not isinstance(a, (Ptr, FnPtr)): a = self.int_to_ptr(a) or Ptr(-1, a)
            if not isinstance(b, (Ptr, FnPtr)): b = self.int_to_ptr(b) or Ptr(-1, b)
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                e = a == b if isinstance(a, FnPtr) and isinstance(b, FnPtr) else False
                if pred == 'eq': return e
                if pred == 'ne': return not e
                raise Unsupported('fnptr compare')
            if a.obj == b.obj:
                # same object: addresses compare as signed offsets (objects do not wrap around the address space)
                if a.obj is None:
                    return self.icmp(pred, a.off, b.off, 'i64')
                p = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)
                return self.icmp(p, a.off, b.off, 'i64')
            if pred == 'eq': return self.diff_eq(a, b)
            if pred == 'ne': return NOT(self.diff_eq(a, b))
            x, y = (a, b) if a.obj is None else (b, a)
            if x.obj is None and isinstance(x.off, int) and x.off == 0:
                # null versus a real object
                if pred in ('ult', 'ule', 'ugt', 'uge'):
                    nul_left = x is a
                    return (pred in ('ult', 'ule')) == nul_left
            return z3.Bool(fresh_name('ptrcmp'))
        w = tw(t)
        if w == 1:
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                a, b = int(a), int(b)
            else:
                if pred == 'eq': return simp(zb(a) == zb(b))
                if pred == 'ne': return simp(zb(a) != zb(b))
                a, b = bv(a, 1), bv(b, 1)
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            a, b = int(a), int(b)
            if pred in ('slt', 'sle', 'sgt', 'sge'): a, b = sgn(a, w), sgn(b, w)
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'slt': a < b, 'ule': a <= b, 'sle': a <= b, 'ugt': a > b, 'sgt': a > b, 'uge': a >= b, 'sge': a >= b}[pred]
        za, zb_ = bv(a, w), bv(b, w)
        return simp({'eq': lambda: za == zb_, 'ne': lambda: za != zb_, 'ult': lambda: z3.ULT(za, zb_), 'ule': lambda: z3.ULE(za, zb_), 'ugt': lambda: z3.UGT(za, zb_), 'uge': lambda: z3.UGE(za, zb_),
            'slt': lambda: za < zb_, 'sle': lambda: za <= zb_, 'sgt': lambda: za > zb_, 'sge': lambda: za >= zb_}[pred]())
    def diff_eq(self, a, b):
        for x in (a, b):
            if x.obj is None and not (isinstance(x.off, int) and x.off < 4096): return z3.Bool(fresh_name('ptreq'))
        return False

    # ---------------------------------------------------------- call instruction
    def call(self, st, f, I, work):
        cal = I['callee']
        if isinstance(cal, int): cal = f.regs[cal]
        elif cal.get('c') == 'glob' and cal['n'].startswith('llvm.'): cal = FnPtr(cal['n'])
        else: cal = self.val(st, cal)
        args = [self.val(st, a) if a is not None else None for a in I['args']]
        if I['op'] == 'invoke': f.inst = I
        if not isinstance(cal, FnPtr):
            if isinstance(cal, Ptr) and cal.obj is None:
                self.oblige(st, False, 'call through a null pointer', 'safety'); return False
            raise Unsupported(f'call through {cal}')
        return self.call_fn(st, f, I, cal.name, args, work)

    def call_fn(self, st, f, I, name, args, work):
        if name.startswith('llvm.'):
            r = self.intrinsic(st, I, name, args)
            if r is FAIL: return False
            self.finish_call(st, I, r)
            return True
        h = self.handler(name)
        if h is not None:
            fn, doc = h
            self.assumed[doc.strip().split('\n')[0]] = self.assumed.get(doc.strip().split('\n')[0], 0) + 1
            res = fn(self, st, args, I)
            if isinstance(res, FnPtr) and res.name.startswith('->'): self.push(st, self.m.fns[res.name[2:]], args, I); return True   # code stands for the contract
            return self.apply_results(st, I, res, work)
        fn = self.m.fns.get(name)
        if fn is None or fn['decl']:
            raise Unsupported('no contract for external function ' + (fn['dem'] if fn else name))
        self.push(st, fn, args, I)
        return True

    def apply_results(self, st, I, res, work):
        if not (isinstance(res, list) and res and isinstance(res[0], tuple)): res = [(st, res)]
        n = 0
        for s, v in res:
            if s is None: continue
            if isinstance(v, Throw):
                s.frames[-1]  # caller frame: unwind from the call site
                if not self.throw(s, v.ty): pass
            else: self.finish_call(s, I, v)
            work.append(s); n += 1
        self.stats['paths'] += 0
        return False

    # ---------------------------------------------------------- scheduling and merging of paths
    def skey(self, st):
        """position of a state: smaller = further behind"""
        out = []
        for f in st.frames:
            self.m.fn_loops(f.fn); inf = self.m.info[f.fn['name']]
            for h in inf['inl'].get(f.block, ()):
                if f.counts.get(('unr', h)) or self.mode != PROOF: out += [inf['order'][h], f.counts.get(('it', h), 0)]
            out += [inf['order'].get(f.block, 0), f.ip]
        return out
    def loc(self, st):
        return tuple((f.fn['name'], f.block, f.ip, f.enter, f.placed, f.prev if f.enter and not f.placed else -1) for f in st.frames)
    def pick(self, work):
        if not self.merging or len(work) == 1: return work.pop()
        best = min(range(len(work)), key=lambda i: self.skey(work[i]))
        s = work.pop(best); l = self.loc(s)
        i = len(work) - 1
        while i >= 0:
            t = work[i]
            if len(t.frames) == len(s.frames) and self.loc(t) == l:
                m = self.merge(s, t)
                if m is not None: s = m; work.pop(i); self.stats['merges'] = self.stats.get('merges', 0) + 1
            i -= 1
        return s
    def merge(self, a, b):
        """one state standing for both (or None): exact, with a selector deciding which"""
        if a.exc != b.exc or a.caught != b.caught or a.result is not b.result or not a.frames: return None
        if a.ghost is not b.ghost:
            if set(a.ghost) != set(b.ghost): return None
        k = 0
        for x, y in zip(a.pc, b.pc):
            if x is y or x.eq(y): k += 1
            else: break
        sa, sb = a.pc[k:], b.pc[k:]
        sel = None
        if sa and sb:
            if z3.is_not(sb[0]) and sb[0].arg(0).eq(sa[0]): sel = sa[0]
            elif z3.is_not(sa[0]) and sa[0].arg(0).eq(sb[0]): sel = sa[0]
        if sel is None: sel = z3.Bool(fresh_name('sel'))
        nd = [0]
        class No(Exception): pass
        lim = self.cfg.get('merge_limit', 8)
        def mv(x, y, w=None):
            if eqv(x, y): return x
            nd[0] += 1
            if nd[0] > lim: raise No
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.obj == y.obj: return Ptr(x.obj, ITE(sel, x.off, y.off, 64))
                raise No
            if isinstance(x, list) and isinstance(y, list) and len(x) == len(y): return [mv(p, q) for p, q in zip(x, y)]
            if isinstance(x, (Ptr, FnPtr, tuple)) or isinstance(y, (Ptr, FnPtr, tuple)) or x is None or y is None: raise No
            if isinstance(x, bool) or isinstance(y, bool) or (isz(x) and z3.is_bool(x)) or (isz(y) and z3.is_bool(y)):
                return simp(z3.If(sel, zb(x), zb(y)))
            if not isz(x) and not isz(y):
                if w is None: raise No
                return z3.If(sel, z3.BitVecVal(x, w), z3.BitVecVal(y, w))
            if isz(x) and isz(y):
                if x.sort() != y.sort(): raise No
                if x.sort_kind() == z3.Z3_DATATYPE_SORT and x.num_args() and x.decl().eq(y.decl()):
                    return x.decl()(*[p if p.eq(q) else mv(p, q) for p, q in zip(x.children(), y.children())])
                return z3.If(sel, x, y)
            if not z3.is_bv(x if isz(x) else y): raise No
            return z3.If(sel, x if isz(x) else z3.BitVecVal(x, y.size()), y if isz(y) else z3.BitVecVal(y, x.size()))
        try:
            n = a.copy()
            for g in a.ghost:
                x, y = a.ghost[g], b.ghost[g]
                if not eqv(x, y):
                    if not self.cfg.get('merge_ghost', True): return None
                    n.ghost[g] = mv(x, y, 64)
            last = len(a.frames) - 1
            for i, (fa, fb, fn) in enumerate(zip(a.frames, b.frames, n.frames)):
                if fa.ret is not fb.ret or fa.inst is not fb.inst: return None
                if fa.counts != fb.counts: return None
                if i == last: live = self.m.live_at(fa.fn, fa.block, fa.ip) if fa.placed or not fa.enter else None
                else:
                    I = fa.fn['blocks'][fa.block][fa.ip]
                    live = set(self.m.live_at(fa.fn, fa.block, fa.ip + 1))
                    if I['op'] == 'invoke':
                        inf = self.m.info[fa.fn['name']]
                        live = set(fa.regs)
                regs = {}
                types = self.reg_types(fa.fn)
                for r in fa.regs:
                    if r not in fb.regs: continue
                    if live is not None and r not in live and not isinstance(r, tuple):
                        if eqv(fa.regs[r], fb.regs[r]): regs[r] = fa.regs[r]
                        continue
                    regs[r] = mv(fa.regs[r], fb.regs[r], types.get(r))
                fn.regs = regs
                if fa.allocas != fb.allocas: fn.allocas = list(fa.allocas) + [o for o in fb.allocas if o not in fa.allocas]
            if a.dead != b.dead:
                for o in a.dead ^ b.dead:
                    if o in a.mem and o in b.mem: return None
                n.dead = a.dead | b.dead
            for o, mb in b.mem.items():
                ma = a.mem.get(o)
                if ma is None: n.mem[o] = mb; continue
                if ma is mb: continue
                if o in a.dead and o in b.dead: continue
                if ma.base is not mb.base: return None
                if ma.cells == mb.cells if False else False: continue
                cells = {}
                for off in set(ma.cells) | set(mb.cells):
                    x, y = ma.cells.get(off), mb.cells.get(off)
                    if x is None or y is None:
                        if ma.base is None and not (x or y)[0] > 8 and not any(q < off + (x or y)[0] and off < q + c[0] for q, c in (mb if x else ma).cells.items() if q != off):   # uninitialised on one side: any value there
                            w = 8 * (x or y)[0]; v = (x or y)[1]
                            if isinstance(v, (int, bool)) or (isz(v) and z3.is_bv(v)):
                                u = z3.BitVec(fresh_name('uninit'), w); cells[off] = (w // 8, z3.If(sel, bv(v, w), u) if x else z3.If(sel, u, bv(v, w)))
                            continue
                        return None
                    if x[0] != y[0]: return None
                    cells[off] = (x[0], mv(x[1], y[1], 8 * x[0]))
                n.mem[o] = Mem(cells, ma.base)
        except No:
            return None
        ca, cb = z3.And(*([sel] + sa)), z3.And(*([z3.Not(sel)] + sb))
        n.pc = a.pc[:k] + [z3.Or(ca, cb)]
        n.model = None
        n.wide = {k: v for k, v in a.wide.items() if k in b.wide}
        return n
    def reg_types(self, fn):
        if fn['name'] not in self._rt:
            d = {}
            for p in fn['params']: 
                t = p.get('t')
                if isinstance(t, str) and t[0] == 'i' and t[1:].isdigit(): d[p['id']] = int(t[1:])
            for b in fn['blocks']:
                for I in b:
                    t = I.get('t')
                    if 'id' in I and isinstance(t, str) and t[0] == 'i' and t[1:].isdigit(): d[I['id']] = int(t[1:])
            self._rt[fn['name']] = d
        return self._rt[fn['name']]

    def intrinsic(self, st, I, name, a):
        b = name.split('.')
        n = b[1]
        if n in ('lifetime', 'dbg', 'assume', 'experimental', 'stackrestore', 'prefetch', 'invariant', 'var', 'donothing'): return None
        if n == 'stacksave': return NULL
        if n in ('memcpy', 'memmove'): return None if self.memcpy(st, a[0], a[1], a[2], n) else FAIL
        if n == 'memset': return None if self.memset(st, a[0], a[1], a[2]) else FAIL
        if n == 'eh': return self.typeid(I['args'][0]['n'] if isinstance(I['args'][0], dict) and 'n' in I['args'][0] else '*')
        if n == 'expect': return a[0]
        if n == 'is' and b[2] == 'constant': return False
        if n == 'objectsize': return mask(64)
        if n == 'trap': self.oblige(st, False, 'trap is not reached', 'safety'); return FAIL
        t = I['t']
        if n in ('smax', 'smin', 'umax', 'umin'):
            w = tw(t); x, y = a[0], a[1]
            c = self.icmp({'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[n], x, y, t)
            return ITE(c, x, y, w)
        if n == 'abs':
            w = tw(t); return ITE(SLT(a[0], 0, w), SUB(0, a[0], w), a[0], w)
        if n in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and b[2] == 'with':
            w = tw(I['at'][0]); x, y = bv(a[0], w), bv(a[1], w)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[n[1:]]
            s = n[0] == 's'
            if n[1:] == 'add': ok = z3.And(z3.BVAddNoOverflow(x, y, s), z3.BVAddNoUnderflow(x, y)) if s else z3.BVAddNoOverflow(x, y, False)
            elif n[1:] == 'sub': ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)) if s else z3.UGE(x, y)
            else: ok = z3.And(z3.BVMulNoOverflow(x, y, s), z3.BVMulNoUnderflow(x, y)) if s else z3.BVMulNoOverflow(x, y, False)
            return [simp(r), simp(z3.Not(ok))]
        if n == 'bswap':
            w = tw(t); bs = self.split(a[0], w // 8); return self.cat(bs[::-1])
        if n in ('ctlz', 'cttz', 'ctpop', 'fabs', 'fshl', 'fshr', 'usub', 'uadd'):
            if n in ('fshl', 'fshr') and isinstance(a[2], int):
                w = tw(t); k = a[2] % w; x, y = bv(a[0], w), bv(a[1], w)
                if k == 0: return a[0] if n == 'fshl' else a[1]
                return simp((x << k) | z3.LShR(y, w - k)) if n == 'fshl' else simp((x << (w - k)) | z3.LShR(y, k))
            if n == 'fabs': return simp(bv(a[0], tw(t)) & z3.BitVecVal((1 << (tw(t) - 1)) - 1, tw(t)))
            if n == 'ctpop': w = tw(t); x = bv(a[0], w); return simp(sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)][1:], z3.ZeroExt(w - 1, z3.Extract(0, 0, x))))
            raise Unsupported('intrinsic ' + name)
        raise Unsupported('intrinsic ' + name)

    # ---------------------------------------------------------- loops
    def do_loop(self, st, header, body):
        """cut the loop: returns the states that leave it"""
        f = st.frames[-1]; depth = len(st.frames)
        self.stats['loops'] += 1
        if not f.placed: self.phis(st, f); f.placed = True         # entry values in registers, ip after the phis
        blk = f.fn['blocks'][header]
        phis = [(I['id'], I['t']) for I in blk if I['op'] == 'phi']
        entry = st
        phivals0 = {i: f.regs[i] for i, _ in phis}
        keys = [('phi', i, t) for i, t in phis]
        lname = f"{short(f.fn['dem'])}:{blk[0].get('ln') or next((i.get('ln') for i in blk if i.get('ln')), '?')}"
        n_obl = len(self.obls)
        fresh = {}
        active = None
        cands = None
        rounds = 0
        measures = None
        self.loop_depth += 1
        bases = {}
        try:
            while True:
                rounds += 1
                self.stats['rounds'] += 1
                if rounds > self.cfg['max_rounds']: raise Unsupported('invariant inference does not settle at ' + lname)
                del self.obls[n_obl:]
                H = self.havoc(entry, keys, fresh, depth, phivals0, bases)
                hviews = [View(self, h, keys, depth, {i: h.frames[-1].regs[i] for i, _ in phis}) for h in H]
                view0 = View(self, entry, keys, depth, phivals0)
                if cands is None:
                    cands = self.candidates(entry, view0, hviews[0], keys, fresh, f, lname)
                    self.stats['inv_cands'] += len(cands); vints = self.view_ints
                    active = self.filter_entry(entry, view0, cands)
                backs, exits = [], []
                for h, hv in zip(H, hviews):
                    shaped = {c[2] for c in active if len(c) > 2 and ('arr', c[2]) in keys and h.mem[c[2]].base.k == 'arr'}
                    for c in active:
                        if len(c) > 2: # says what an array holds: everywhere instead of at one index
                            if c[2] in shaped: h.mem[c[2]] = Mem(dict(h.mem[c[2]].cells), Node('fn', c[3](hv, h.mem[c[2]].base)))
                        else: h.assume(self.ev(c, hv))
                    h.model = None
                    h.invs = h.invs + ((lname, tuple(c[0] for c in active)),)
                    # feasible at all?
                    for k, s in self.run_body(h.copy(), (depth, header, body)):
                        (backs if k == 'back' else exits).append((s, hv, h))
                # new modified locations?
                new = self.modified(entry, H[0], [b for b, _, _ in backs], keys, depth, bases, header)
                if new:
                    keys = keys + new; cands = None; continue
                # preservation
                bviews = []
                for b, hv, h in backs:
                    fb = b.frames[-1]
                    pv = self.phi_back(b, header)
                    bviews.append((b, View(self, b, keys, depth, pv), hv))
                if self.widen_bases(keys, view0, [v for _, v, _ in bviews], bases):
                    cands = None; continue
                dropped = self.filter_back(bviews, active)
                if dropped:
                    active = [c for c in active if c[0] not in dropped]
                    continue
                break
        finally:
            self.loop_depth -= 1
        self.stats['inv_kept'] += len(active)
        # record the preservation of every kept clause as a discharged obligation set (checked in filter_back)
        self.loop_report.append(dict(loop=lname, rounds=rounds, kept=[c[0] for c in active], candidates=len(cands), backs=len(backs), exits=len(exits)))
        if self.check_termination and self.loop_depth >= 0 and backs:
            self.termination(bviews, keys, f, lname, entry, view0, vints)
        return [s for s, _, _ in exits]

    def run_body(self, h, ctx):
        f = h.frames[-1]
        f.enter = False   # phis already placed
        return self.run(h, ctx)

    def phi_back(self, b, header):
        fb = b.frames[-1]
        out = {}
        for I in fb.fn['blocks'][header]:
            if I['op'] != 'phi': break
            for bb, o in I['in']:
                if bb == fb.prev: out[I['id']] = self.val(b, o); break
        return out

    def havoc(self, entry, keys, fresh, depth, phivals0, bases):
        h = entry.copy()
        variants = [h]
        for key in sorted(keys, key=lambda k: k[0] != 'arr'):
            v0 = View(self, entry, keys, depth, phivals0).get(key)
            if key in bases and len(bases[key]) > 1:
                nv = []
                for h in variants:
                    for bobj in bases[key]:
                        hh = h.copy(); self.set_key(hh, key, self.fresh_for(key, v0, fresh, bobj)); nv.append(hh)
                variants = nv
            else:
                fv = self.fresh_for(key, v0, fresh, None)
                for h in variants: self.set_key(h, key, fv)
        return variants
    def fresh_for(self, key, v0, fresh, base):
        k = (key, base) if base is not None else key
        if k in fresh: return fresh[k]
        nm = fresh_name('lv_' + '_'.join(str(x) for x in key if not isinstance(x, dict))[:40])
        if isinstance(v0, Ptr) or isinstance(base, (int, str)):
            b = base if base is not None else v0.obj
            if b == 'null': v = NULL
            else: v = Ptr(b, z3.BitVec(nm, 64))
            if b is None: v = NULL if eqv(v0, NULL) else v0
        elif key[0] == 'arr': v = node_array(nm)
        elif key[0] == 'ghost': v = z3.Const(nm, v0.sort()) if isz(v0) else (z3.Bool(nm) if isinstance(v0, bool) else z3.BitVec(nm, 64))
        elif key[0] == 'phi':
            t = key[2]
            v = z3.Bool(nm) if t == 'i1' else z3.BitVec(nm, tw(t))
        elif key[0] == 'cell':
            v = z3.BitVec(nm, 8 * key[3])
        else: raise Unsupported('havoc ' + str(key))
        if isinstance(v0, (FnPtr, list, tuple)): raise Unsupported(f'loop-modified {type(v0).__name__} {key}')
        fresh[k] = v
        return v
    def set_key(self, h, key, v):
        if key[0] == 'phi': h.frames[-1].regs[key[1]] = v
        elif key[0] == 'cell':
            m = h.mem[key[1]].copy(); m.cells[key[2]] = (key[3], v); h.mem[key[1]] = m
        elif key[0] == 'ghost': h.ghost[key[1]] = v
        elif key[0] == 'arr': # an object that holds pointers keeps its cells, which are tracked one by one
            m = h.mem[key[1]]; h.mem[key[1]] = Mem(dict(m.cells) if self.has_ptr_cells(m) else {}, v)
    def modified(self, entry, H, backs, keys, depth, bases, header):
        have = set((k[0], k[1]) + ((k[2], k[3]) if k[0] == 'cell' else ()) for k in keys)
        arrs = {k[1] for k in keys if k[0] == 'arr'}
        new = []
        for b in backs:
            if len(b.frames) != len(H.frames): raise Unsupported('frame mismatch on back edge')
            # outer frames' registers cannot change (SSA)
            for o, m in H.mem.items():
                m2 = b.mem.get(o)
                if m2 is m: continue
                mixed = self.has_ptr_cells(m)
                if o in arrs and not mixed: continue
                if m2.base is not m.base and o not in arrs:
                    if ('arr', o) not in have: new.append(('arr', o)); have.add(('arr', o))
                    if not mixed: continue
                for off in set(m.cells) | set(m2.cells):
                    c1, c2 = m.cells.get(off), m2.cells.get(off)
                    if c1 is not None and c2 is not None and c1[0] == c2[0] and eqv(c1[1], c2[1]): continue
                    if self.objs[o].kind == 'stack' and c1 is None and o in b.dead: continue
                    n = (c2 or c1)[0]
                    k = ('cell', o, off, n)
                    if mixed and (m2.base is not m.base or o in arrs):
                        if c1 is None: continue # part of the arbitrary bytes
                        if c2 is None or c1[0] != c2[0]:
                            if isinstance(c1[1], (Ptr, FnPtr, tuple)): raise Unsupported('loop changes the shape of a cell')
                            c2 = c1
                        k = ('cell', o, off, c1[0])
                        if k not in have: new.append(k); have.add(k)
                        continue
                    if c1 is None:
                        # not initialised before the loop: no entry value; treat as arbitrary in the havoced state
                        if m.base is not None and m.base.k != 'zero':
                            if ('arr', o) not in have: new.append(('arr', o)); have.add(('arr', o))
                            continue
                        v = c2[1]
                        if isinstance(v, (Ptr, FnPtr)):
                            continue   # dead temporary holding a pointer; reading it before writing would be flagged
                        me = entry.mem[o].copy(); me.cells[off] = (n, 0 if m.base is not None else z3.BitVec(fresh_name('uninit'), 8 * n)); entry.mem[o] = me
                        new.append(k); have.add(k); continue
                    if c2 is None or c1[0] != c2[0]:
                        if isinstance(c1[1], (Ptr, FnPtr)): raise Unsupported('loop changes the shape of a cell')
                        if ('arr', o) not in have: new.append(('arr', o)); have.add(('arr', o))
                        continue
                    if ('cell', o, off, n) in have: continue
                    new.append(k); have.add(k)
            for g, v in b.ghost.items():
                if ('ghost', g) in have: continue
                if g not in H.ghost: raise Unsupported('ghost created in loop: ' + g)
                if not eqv(v, H.ghost[g]): new.append(('ghost', g)); have.add(('ghost', g))
        return new
    def widen_bases(self, keys, v0, bviews, bases):
        """pointer-valued locations that may refer to different objects across iterations"""
        changed = False
        for key in keys:
            x0 = v0.get(key)
            if not isinstance(x0, Ptr) and not any(isinstance(v.get(key), Ptr) for v in bviews): continue
            if not isinstance(x0, Ptr): raise Unsupported('cell changes between pointer and integer')
            cur = bases.get(key, [x0.obj if x0.obj is not None else 'null'])
            for v in bviews:
                x = v.get(key)
                if not isinstance(x, Ptr): raise Unsupported('pointer cell becomes ' + str(type(x)))
                b = x.obj if x.obj is not None else 'null'
                if b not in cur:
                    if isinstance(b, int) and b not in v0.st.mem: raise Unsupported(f'loop-carried pointer to an object allocated in the loop ({self.objs[b].name})')
                    cur = cur + [b]; changed = True
            if len(cur) > 1: bases[key] = cur
        return changed

    # candidate clauses: (name, closure over View)
    def ev(self, c, view):
        try: r = c[1](view)
        except (TypeError, AttributeError, KeyError, z3.Z3Exception) as e:
            if self.cfg.get('debug_cands'): raise
            return False
        return norm(r)

    def candidates(self, entry, view0, hview, keys, fresh, f, lname):
        out = []
        ints = []
        for key in keys:
            v = view0.get(key)
            if key[0] in ('arr', 'ghost'): continue
            if isinstance(v, Ptr): ints.append((key, 64, True))
            elif isinstance(v, (int, bool)) or (isz(v) and (z3.is_bv(v) or z3.is_bool(v))):
                w = (1 if key[2] == 'i1' else tw(key[2])) if key[0] == 'phi' else 8 * key[3]
                ints.append((key, w, False))
        def i64(view, key, w, isp):
            v = view.get(key)
            if isp: return v.off
            if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return bv(v, 64)
            return self.sx(view.st, v, w, 64)
        self._i64 = i64
        nm = lambda k: '.'.join(str(x) for x in k[:3] if not isinstance(x, dict))
        # pointer base stays put (implicit), offsets: bounds
        terms = self.bound_terms(entry, f)
        for key, w, isp in ints:
            if w == 1:
                v0 = view0.get(key)
                out.append((f'{nm(key)}=init', lambda vw, key=key, v0=v0: simp(zb(vw.get(key)) == zb(v0))))
                continue
            x0 = i64(view0, key, w, isp)
            G = lambda vw, key=key, w=w, isp=isp: i64(vw, key, w, isp)
            out.append((f'{nm(key)}=init', lambda vw, G=G, x0=x0: EQ(G(vw), x0)))
            out.append((f'{nm(key)}>=init', lambda vw, G=G, x0=x0: SLE(x0, G(vw))))
            out.append((f'{nm(key)}<=init', lambda vw, G=G, x0=x0: SLE(G(vw), x0)))
            if w >= 32:
                out.append((f'{nm(key)}>=0', lambda vw, G=G: SLE(0, G(vw))))
                out.append((f'{nm(key)}>=-1', lambda vw, G=G: SLE(mask(64), G(vw))))
                for tn, t in terms:
                    out.append((f'{nm(key)}<={tn}', lambda vw, G=G, t=t: SLE(G(vw), t)))
                    out.append((f'{nm(key)}<{tn}', lambda vw, G=G, t=t: SLT(G(vw), t)))
                    out.append((f'{nm(key)}>={tn}', lambda vw, G=G, t=t: SLE(t, G(vw))))
            if isp:
                o = view0.get(key)
                if o.obj is not None and not isinstance(self.objs[o.obj].size, int) or (o.obj is not None):
                    sz = self.objs[o.obj].size
                    out.append((f'{nm(key)}<=size', lambda vw, G=G, sz=sz: SLE(G(vw), sz)))
        if not self.cfg.get('generic', True): out = []
        big = [(k, w, p) for k, w, p in ints if w >= 32] if self.cfg.get('generic', True) else []
        for (k1, w1, p1), (k2, w2, p2) in itertools.combinations(big, 2):
            a0, b0 = i64(view0, k1, w1, p1), i64(view0, k2, w2, p2)
            A = lambda vw, k=k1, w=w1, p=p1: i64(vw, k, w, p)
            B = lambda vw, k=k2, w=w2, p=p2: i64(vw, k, w, p)
            d0 = SUB(a0, b0)
            out.append((f'{nm(k1)}-{nm(k2)}=const', lambda vw, A=A, B=B, d0=d0: EQ(SUB(A(vw), B(vw)), d0)))
            s0 = ADD(a0, b0)
            out.append((f'{nm(k1)}+{nm(k2)}=const', lambda vw, A=A, B=B, s0=s0: EQ(ADD(A(vw), B(vw)), s0)))
            out.append((f'{nm(k1)}<={nm(k2)}', lambda vw, A=A, B=B: SLE(A(vw), B(vw))))
            out.append((f'{nm(k2)}<={nm(k1)}', lambda vw, A=A, B=B: SLE(B(vw), A(vw))))
        self.view_ints = [(k, (lambda vw, k=k, w=w, p=p: i64(vw, k, w, p)), w, p) for k, w, p in ints]
        for hook in self.cand_hooks: out += hook(self, entry, view0, self.view_ints, keys)
        return out

    def bound_terms(self, entry, f):
        """terms that do not change in the loop: sizes of objects in play, 64/32-bit integers in registers and arguments"""
        out = []; seen = set()
        def add(n, t):
            if isinstance(t, int):
                if t > 1 << 32: return
                k = t
            else: k = t.get_id()
            if k in seen: return
            seen.add(k); out.append((n, t))
        for n, t in self.hints: add(n, t)
        for k, v in f.regs.items():
            if isinstance(v, Ptr) and v.obj is not None:
                if isz(v.off): add(f'r{k}', v.off)
                s = self.objs[v.obj].size
                if isz(s): add(f'size{v.obj}', s)
            elif isz(v) and z3.is_bv(v):
                if v.size() == 64: add(f'r{k}', v)
                elif v.size() == 32: add(f'r{k}', sext(v, 32, 64))
            elif isinstance(v, int) and not isinstance(v, bool) and 1 < v < 100000: add(f'c{v}', v)
            if len(out) > self.cfg.get('max_terms', 14): break
        return out

    def filter_entry(self, st, view, cands):
        vals = []
        for c in cands:
            v = self.ev(c, view)
            if v is False: continue
            vals.append((c, v))
        keep = [c for c, v in vals if v is True]
        pend = [(c, v) for c, v in vals if v is not True]
        keep += self.houdini_filter(st.pc, pend)
        return keep
    def houdini_filter(self, pc, pend):
        """largest subset of clauses each implied by pc"""
        if not pend: return []
        sure = []
        s = z3.Solver(); s.set('timeout', self.cfg.get('inv_timeout', 4000))
        ax = self.spec_axioms(list(pc) + [v for _, v in pend]) if self.spec_axioms else []
        for c in pc: s.add(c)
        for a in ax: s.add(a)
        while pend:
            s.push(); s.add(z3.Not(z3.And(*[zb(v) for _, v in pend])) )
            t = time.time(); r = s.check(); self.stats['feas'] += 1; self.stats['feas_time'] += time.time() - t
            if r == z3.unsat: s.pop(); return [c for c, _ in pend + sure]
            if r == z3.sat:
                m = s.model(); s.pop()
                nxt = [(c, v) for c, v in pend if z3.is_true(m.eval(zb(v), True))]
                if self.cfg.get('confirm'): # clauses worth a query of their own before they are given up
                    for c, v in pend:
                        if re.search(self.cfg['confirm'], c[0]) and not any(v is v2 for _, v2 in nxt):
                            s1 = z3.Solver(); s1.set('timeout', self.cfg['retry']); s1.add(*pc); s1.add(*self.spec_axioms(list(pc) + [v])); s1.add(z3.Not(zb(v))); t = time.time(); rr = s1.check(); self.stats['feas'] += 1; self.stats['feas_time'] += time.time() - t
                            if self.cfg.get('debug'): print('   confirm', c[0], rr, round(time.time() - t, 1))
                            if rr == z3.unsat: sure.append((c, v))
                            elif rr == z3.unknown: self.shaky.append(c[0])
                    nxt = [(c, v) for c, v in nxt if not any(v is v2 for _, v2 in sure)]; pend = [(c, v) for c, v in pend if not any(v is v2 for _, v2 in sure)]
                    if not nxt: return [c for c, _ in sure]
                if len(nxt) == len(pend): r = z3.unknown
                else: pend = nxt; continue
            elif self.cfg.get('ints') and cvc5_check(s, 20, True) == 'unsat': s.pop(); return [c for c, _ in pend + sure]
            else: s.pop()
            # unknown: decide one by one
            out = []
            for c, v in pend:
                s.push(); s.add(z3.Not(zb(v))); t = time.time(); rr = s.check(); self.stats['feas'] += 1; self.stats['feas_time'] += time.time() - t
                if rr == z3.unknown and self.cfg.get('ints') and cvc5_check(s, 10, True) == 'unsat': rr = z3.unsat
                if rr == z3.unknown and self.cfg.get('retry'): # without incrementality the solver preprocesses
                    s1 = z3.Solver(); s1.set('timeout', self.cfg['retry']); s1.add(s.assertions()); t = time.time(); rr = s1.check(); self.cfg.get('debug') and print('   retry', c[0], rr, round(time.time() - t, 1)); self.stats['feas'] += 1; self.stats['feas_time'] += time.time() - t
                s.pop()
                if rr == z3.unsat: out.append((c, v))
                elif rr == z3.unknown and not (self.cfg.get('confirm') and not re.search(self.cfg['confirm'], c[0])): self.shaky.append(c[0])
            return [c for c, _ in out + sure]
        return []
    def filter_back(self, bviews, active):
        names = set()
        for b, v, hv in bviews:
            pend = []
            for c in active:
                if c[0] in names: continue
                val = self.ev(c, v)
                if val is True: continue
                if val is False: 
                    # is the back edge feasible at all?
                    val = z3.BoolVal(False)
                pend.append((c, val))
            kept = {c[0] for c in self.houdini_filter(b.pc, pend)}
            names |= {c[0] for c, _ in pend} - kept
            if self.cfg.get('debug'): print('   drop', sorted({c[0] for c, _ in pend} - kept), 'on', b.notes[-12:])
        return names

    def termination(self, bviews, keys, f, lname, entry, view0, vints):
        """some integer measure strictly changes towards a bound on every path back to the header"""
        ms = []
        terms = self.bound_terms(entry, f)
        for k, G, w, p in vints:
            if w < 8: continue
            ms.append((f'{k[:3]} up', G, +1)); ms.append((f'{k[:3]} down', G, -1))
        extra = []
        for hook in self.measure_hooks: extra += hook(self, entry, view0, vints, keys)
        pend = ms + [(n, G, -1) for n, G in extra]
        if self.cfg.get('debug'): print('measures', [x[0] for x in pend])
        ok = None
        for n, G, d in pend:
            good = True
            for b, v, hv in bviews:
                try: x, y = G(hv), G(v)
                except (AttributeError, TypeError): good = False; break
                dec = SLT(x, y) if d > 0 else SLT(y, x)
                bounded = True
                if dec is True: continue
                r, m = self.check(b.pc, [NOT(dec)], timeout=self.cfg.get('inv_timeout', 4000))
                if r != 'unsat':
                    if self.cfg.get('debug'):
                        print('  measure', n, r, b.notes[-12:])
                        if m and 'cell' in n: print(x, '->', m.eval(bv(x, 64)), m.eval(bv(y, 64))); open('/tmp/pc.txt','w').write(str([z3.simplify(m.eval(c, True)) for c in b.pc])+str(m)); open('/tmp/pc2.txt','w').write(str(b.pc))
                    good = False; break
            if good: ok = n; break
        # strict monotonicity of a machine integer without wrap-around bounds the number of iterations
        o = Obligation(f'loop {lname} terminates (some measure is strictly monotone without wrapping)', [], z3.BoolVal(ok is not None), lname, 'termination', ())
        o.detail = f'measure: {ok}'
        self.obls.append(o)
