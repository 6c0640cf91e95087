"""One step of a server session, specified completely: what is answered to which bytes, and what the session remembers."""
from hlib import *
def response(text):
    "code of a complete, well-formed response without anything behind it, or None"
    m = re.match(rb'HTTP/1\.1 (\d\d\d) [ -~]*\r\n((?:[A-Za-z-]+:[ \t]*[!-~][ -~]*\r\n)*)\r\n', text)
    if not m: return None
    hs = [l.split(b':', 1) for l in m.group(2).split(b'\r\n')[:-1]]; names = [k.lower() for k, v in hs]
    if len(set(names)) != len(names): return None
    h = {k.lower(): v.strip() for k, v in hs}; body = text[m.end():]; code = int(m.group(1))
    if code == 204: return code if not body and b'content-length' not in h else None
    return code if h.get(b'content-length', b'').isdigit() and int(h[b'content-length']) == len(body) else None
def cells(ex, st, p, size): return {off - p.off: c for off, c in st.mem[p.obj].cells.items() if p.off <= off < p.off + size}
def dontcare(m):
    "which parts of a session differ from a new one's after an answered request: arbitrary at the start of the step"
    out = set(); text = b'POST /path HTTP/1.0\r\nContent-Type: a/b\r\nContent-Length: 2\r\nX: y\r\n\r\nab'
    for text in (text, text.replace(b'POST', b'GET'), text.replace(b'POST', b'PUT')):
        ex, st, sp = setup(m, mode=BMC, bmc_bound=300); b = ex.new_obj(st, 'input', len(text), 'arg'); p = Ptr(b, 0)
        for i, c in enumerate(text): ex.wr(st, Ptr(b, i), 1, c)
        @ex.contracts_front.on(r'from_chars<int')
        def fc(ex, s, a, I): ex.wr(s, a[2], 4, 2); return [a[1], 0]
        @ex.contracts_front.on(r'^v_(get|post)$')
        def g(ex, s, a, I): return True
        @ex.contracts_front.on(r'^v_out$')
        def o(ex, s, a, I): return None
        @ex.contracts_front.on(r'^v_start$')
        def vs(ex, s, a, I):
            x, y = cells(ex, s, a[0], a[2]), cells(ex, s, a[1], a[2])
            for k in set(x) | set(y):
                if k not in x or k not in y or x[k][0] != y[k][0] or not eqv(x[k][1], y[k][1]): out.add((k, (x.get(k) or y.get(k))[0]))
            return None
        call(ex, st, 'h_probe', [p, len(text)])
    return out
def textbuffers(ex):
    "buffers under their contracts; one at a time: ghost text, length, where the last two appended parts are, number of buffers, number of times a stream was passed on"
    def new(ex, s, p): s.ghost['text'] = Ptr(ex.sym_bytes(s, 'text', z3.BitVecVal(1 << 40, 64), ro=False), 0); s.ghost['length'] = b64(0); s.ghost['stream'] = s.ghost['stream'] + 1
    @ex.contracts_front.on(r'^TextBuffer::TextBuffer\(\)|NonOwningStreamingBuffer<1024>::NonOwningStreamingBuffer\(')
    def ctor(ex, s, a, I):
        "a new buffer is empty (E01)"
        new(ex, s, a[0]); s.ghost['streaming'] = 'Owning' in ex.m.fns[I['callee']['n']]['dem']; return None
    @ex.contracts_front.on(r'^TextBuffer::~TextBuffer|NonOwningStreamingBuffer<1024>::~NonOwningStreamingBuffer\(')
    def dtor(ex, s, a, I):
        "a streaming buffer has passed on everything in order when it is destroyed (E01)"
        if s.ghost['streaming']: s.ghost['sent'] = s.ghost['sent'] + 1
        return None
    @ex.contracts_front.on(r'^Bomba::GeneralisedBuffer::size\(\)')
    def size(ex, s, a, I):
        "the size counts the bytes (E01)"
        return z3.Extract(31, 0, b64(s.ghost['length']))
    def append(s, p, n):
        L = s.ghost['length']
        if not (isinstance(n, int) and n == 0) and not ex.memcpy(s, Ptr(s.ghost['text'].obj, L), p, n): return [(None, None)]
        s.ghost['before'], s.ghost['last'] = s.ghost['last'], b64(L); s.ghost['length'] = simp(b64(L) + b64(n)); return 0
    @ex.contracts_front.on(r'^Bomba::GeneralisedBuffer::operator\+=\(')
    def app(ex, s, a, I):
        "appending puts the text behind what is there (E01)"
        d = ex.m.fns[I['callee']['n']]['dem']
        if 'string_view' in d: r = append(s, a[2], norm(a[1]))
        elif 'char const*' in d: r = append(s, a[1], len(cstr(ex, s, a[1])))
        else: raise Unsupported(d)
        return a[0] if r == 0 else r
    @ex.contracts_front.on(r'^TextBuffer::operator std::(basic_string_view|span)')
    def view(ex, s, a, I):
        "the view shows all contents (E01)"
        return [b64(s.ghost['length']), s.ghost['text']] if 'string_view' in ex.m.fns[I['callee']['n']]['dem'] else [s.ghost['text'], b64(s.ghost['length'])]
def textghost(): return dict(text=NULL, length=b64(0), last=b64(0), before=b64(0), stream=b8(0), sent=b8(0), streaming=False)
def known(ex, s, M, limit=200):
    "the bytes at the beginning of a text that do not depend on anything"
    text = bytearray()
    for i in range(limit):
        c = norm(M(i))
        if not isinstance(c, int):
            _, mo = ex.check(s.pc, [])
            c = mo.eval(M(i), True).as_long() if mo is not None else None
            if c is None or ex.check(s.pc, [M(i) != c])[0] != 'unsat': break
        text.append(c)
    return bytes(text)
def settle(ex, s, e, *others):
    "a constant if e is the same in all cases, one of the other terms if it is always equal, else a name for it"
    for o in others:
        if ex.check(s.pc, [e != o])[0] == 'unsat': return o
    _, mo = ex.check(s.pc, []); c = mo.eval(e, True) if mo is not None else None
    if c is not None and ex.check(s.pc, [e != c])[0] == 'unsat': return c
    v = z3.BitVec(fresh_name('place'), 64); s.assume(v == e); return v
def step(m, part):
    """part: dispatch, answer or history: which of the obligations are raised"""
    free = dontcare(m); before = []
    ex, st, sp = setup(m, generic=False, inv_timeout=3000, merge_limit=20)
    n1, n2, H, k = z3.BitVecs('n1 n2 headers any_header', 64); d0 = z3.BitVec('first_line', 64); st.assume(z3.ULT(n2, 1 << 30)); st.assume(z3.ULE(n1, n2)); st.assume(z3.ULE(d0, n1)); st.assume(z3.ULT(H, 1 << 30))
    o = ex.sym_bytes(st, 'input', n2, ro=True); src = Ptr(o, 0); T0 = ex.bytes_at(st, src); T = lambda i: bv(T0(i), 8)
    def P(p, *args):   # only the obligations of this part
        if p == part: ex.oblige(*args)
    W32 = z3.BitVecSort(32); x32 = lambda v: z3.Extract(31, 0, v); nil32 = z3.BitVecVal(0, 32); none = z3.BitVecVal(-1, 32)
    S = scanto(sp, 'WORD_END', T, d0, lambda c: c == b8(' '))
    NA, NN, VA, VN = (z3.Function(x, W64, W64) for x in ('name_of_header', 'name_size', 'value_of_header', 'value_size'))
    def word(p, size, text): return z3.And(size == len(text), *[T(p + j) == b8(x) for j, x in enumerate(text)])
    def over(name, rng, at):   # the value after the headers from the i-th on
        G = [None]; G[0] = sp.define(name, [W64, rng], rng, lambda i, cur: z3.If(z3.UGE(i, H), cur, G[0](i + 1, at(i, cur)))); return G[0]
    TS = over('TYPE_START', W32, lambda i, u: z3.If(word(NA(i), NN(i), 'content-type'), x32(VA(i)), u)); TN = over('TYPE_SIZE', W32, lambda i, u: z3.If(word(NA(i), NN(i), 'content-type'), x32(VN(i)), u))
    CL = over('CLOSE', W32, lambda i, u: z3.If(z3.And(word(NA(i), NN(i), 'connection'), word(VA(i), VN(i), 'close')), z3.BitVecVal(DISCONNECT, 32), u))
    e1 = S(b64(0)); s2 = e1 + 1; e2 = S(s2); s3 = e2 + 1
    proto = z3.And(z3.ULT(e1, d0), z3.ULT(e2, d0), z3.Or(word(s3, d0 - s3, 'HTTP/1.1'), word(s3, d0 - s3, 'HTTP/1.0')))
    isget, ispost = z3.And(proto, word(b64(0), e1, 'GET')), z3.And(proto, word(b64(0), e1, 'POST'))
    reaction, length = z3.BitVecs('reaction_of_parse length', 32); body = z3.BitVec('end_of_header', 64); st.assume(z3.Or(reaction == OK, reaction == READ_ON, reaction == DISCONNECT)); st.assume(z3.Implies(reaction == OK, z3.And(z3.ULT(d0, n1), body >= d0, body <= n1, length >= -1, length <= 0x3fffffff)))
    bodysize = z3.If(length == none, b64(0), z3.SignExt(32, length)); header = z3.And(z3.ULT(d0, n1), reaction == OK)
    def complete(z): return z3.And(header, z3.ULE(body + bodysize, z), z3.Not(z3.And(ispost, length == none)))
    Z = lambda g: z3.If(g['phase'] == 1, n1, n2)
    # the contract of parse
    me = [None]
    def member(name): return ex.member[name]
    @ex.contracts_front.on(r'HttpParseState::parse\(')
    def parse(ex, s, a, I):
        "HttpParseState::parse: as proved for it (H01 headers, H02 parse): on a fresh state; calls the readers for the first line and for every header, in order, and reports where the body starts and its size; leaves any state behind if the header is not complete"
        x, y = cells(ex, s, s.ghost['session'], ex.session_size), cells(ex, s, s.ghost['fresh'], ex.session_size); ex.oblige(s, same(s, x, y), 'the header is read with a fresh state'); ex.oblige(s, z3.And(s.ghost['phase'] == 1, a[1].obj == o, b64(a[1].off) == 0, b64(a[2]) == n1), 'the header is read from the beginning of the input')
        return FnPtr('->' + next(k for k, f in ex.m.fns.items() if re.match(r'(Bomba::|\(anonymous namespace\)::)?parseContract\(', f['dem']) or f['dem'].startswith('parseContract')))
    @ex.contracts_front.on(r'^v_lineEnd$')
    def le(ex, s, a, I): return d0
    @ex.contracts_front.on(r'^v_nextHeader$')
    def nh(ex, s, a, I):
        g = s.ghost; i = g['i']; s2 = s.copy(); s2.assume(z3.UGE(i, H)); s.assume(z3.ULT(i, H)); out = []
        for v, n in ((NA(i), NN(i)), (VA(i), VN(i))): s.assume(z3.And(z3.ULT(d0 + 1, v), z3.ULE(v, n1), z3.ULE(n, n1 - v)))
        for p, v in zip(a, (NA(i), NN(i), VA(i), VN(i))): ex.wr(s, p, 8, v)
        g['i'] = i + 1; g['close'] = z3.If(z3.And(word(NA(i), NN(i), 'connection'), word(VA(i), VN(i), 'close')), z3.BitVecVal(DISCONNECT, 32), g['close'])
        for x, r in ((s, True), (s2, False)):
            x.model = None
            if ex.check(x.pc, [])[0] != 'unsat': out.append((x, r))
        return out or [(None, None)]
    @ex.contracts_front.on(r'^v_outcome$')
    def oc(ex, s, a, I): ex.wr(s, a[1], 8, body); ex.wr(s, a[2], 4, length); return reaction
    @ex.contracts_front.on(r'^v_anyPosition$')
    def ap(ex, s, a, I):
        p, m2 = a[0], s.mem[a[0].obj]
        for off, (w, v) in sorted(m2.cells.items()):   # the state of the parser itself (behind its vtable pointer): any values
            if p.off < off < p.off + ex.parser_size: ex.wr(s, Ptr(p.obj, off), w, z3.BitVec(fresh_name('left_by_parse'), 8 * w))
        return z3.BitVec(fresh_name('position'), 64)
    def piece(s, p, k, at, size, what): P('dispatch', s, z3.And(b64(k) == size, z3.Or(size == 0, b64(p.off) == at)) if p.obj == o else z3.And(b64(k) == 0, size == 0), what)
    def outcome(s, r, yes, no):
        s2 = s.copy(); s.ghost['expected'] = z3.If(r, z3.BitVecVal(yes, 32), z3.BitVecVal(no, 32)); s2.ghost['expected'] = z3.BitVecVal(500, 32)
        return [(s, r), (s2, Throw('_ZTISt13runtime_error'))]
    @ex.contracts_front.on(r'^v_get$')
    def get(ex, s, a, I):
        "any responder to GET that writes nothing: any answer, or an exception"
        g = s.ghost; cover(ex, s, 'GET'); P('dispatch', s, z3.And(isget, complete(Z(g)), g['calls'] == 0, g['sent'] == 0), 'GET is called for a complete GET request only, once'); piece(s, a[0], a[1], s2, e2 - s2, 'the path is the second word of the request')
        g['calls'] = g['calls'] + 1; return outcome(s, z3.Bool(fresh_name('found')), 204, 404)
    @ex.contracts_front.on(r'^v_post$')
    def post(ex, s, a, I):
        "any responder to POST that writes nothing: any answer, or an exception"
        g = s.ghost; cover(ex, s, 'POST'); P('dispatch', s, z3.And(ispost, complete(Z(g)), g['calls'] == 0, g['sent'] == 0), 'POST is called for a complete POST request only, once'); piece(s, a[0], a[1], s2, e2 - s2, 'the path is the second word of the request')
        for p in ('dispatch', 'history'):
            if p == part: ex.oblige(s, (z3.And(b64(a[2].off) == z3.SignExt(32, TS(b64(0), nil32)), b64(a[3]) == z3.SignExt(32, TN(b64(0), nil32))) if a[2].obj == o else z3.And(b64(a[3]) == 0, TN(b64(0), nil32) == 0)), 'the content type is the one of this request')
        piece(s, a[4], a[5], body, z3.SignExt(32, length), 'the body is what the content length says')
        g['calls'] = g['calls'] + 1; return outcome(s, z3.Bool(fresh_name('done')), 204, 400)
    @ex.contracts_front.on(r'^v_out$')
    def vo(ex, s, a, I):
        "sending"
        g = s.ghost; k = norm(a[1]); R = ex.bytes_at(s, a[0]); t = bytes(norm(R(i)) for i in range(k)) if isinstance(k, int) and all(isinstance(norm(R(i)), int) for i in range(k)) else None
        if t is None: raise Unsupported('a response without a responder is not constant')
        code = response(t); P('answer', s, z3.BoolVal(code is not None), 'a complete, well-formed response'); P('answer', s, g['sent'] == 0, 'one response'); g['sent'] = g['sent'] + 1; g['status'] = z3.BitVecVal(code or 0, 32); return None
    @ex.contracts_front.on(r'^v_start$')
    def vs(ex, s, a, I):
        "session at the start: as a new one, except for parts that may be left over from earlier requests: any value"
        for off, w in sorted(free): ex.wr(s, Ptr(a[0].obj, a[0].off + off), w, z3.BitVec(fresh_name('left_over'), 8 * w))
        s.ghost['session'], s.ghost['fresh'] = a[0], a[1]; ex.session_size, ex.parser_size = a[2], a[3]; return None
    def same(s, x, y, other=None):
        ks = set(x) | set(y); w = lambda k: (x.get(k) or y.get(k))[0]
        if any(k not in x or k not in y or x[k][0] != y[k][0] for k in ks if (k, w(k)) not in free): return z3.BoolVal(False)
        return z3.And(*[z3.Or(bv(x[k][1], 8 * x[k][0]) == bv(y[k][1], 8 * y[k][0]), bv(x[k][1], 32) == other if other is not None and x[k][0] == 4 else False) for k in ks if (k, w(k)) not in free and not eqv(x[k][1], y[k][1])])
    @ex.contracts_front.on(r'^v_step$')
    def vst(ex, s, a, I):
        "end of a step"
        g = s.ghost; r = bv(a[0], 32); used = bv(a[1], 64); z = Z(g); first = z3.is_true(z3.simplify(g['phase'] == 1)); cover(ex, s, 'first step' if first else 'second step')
        x, y = cells(ex, s, a[2], a[4]), cells(ex, s, a[3], a[4]); c = complete(z)
        P('dispatch', s, z3.Implies(c, z3.And(g['sent'] == 1, used == body + bodysize)), 'a complete request is answered, and exactly it is consumed')
        P('dispatch', s, z3.Implies(g['sent'] != 0, c), 'only a complete request is answered')
        P('dispatch', s, z3.Implies(c, r == CL(b64(0), nil32)), 'the connection is kept unless the request asks to close it')
        P('dispatch', s, z3.Implies(z3.Or(isget, ispost), (g['calls'] == 1) == c), 'every complete request gets to its responder'); P('dispatch', s, z3.Implies(z3.And(header, z3.Not(c)), r == z3.If(z3.And(ispost, length == none), z3.BitVecVal(DISCONNECT, 32), z3.BitVecVal(READ_ON, 32))), 'more input is asked for until the body is complete')
        P('dispatch', s, z3.Implies(z3.Not(header), r == z3.If(z3.ULT(d0, n1), reaction, z3.BitVecVal(READ_ON, 32))), 'an incomplete header is waited for, a broken one refused')
        P('answer', s, z3.Implies(g['sent'] != 0, g['status'] == g['expected']), 'the status says what became of the request'); P('answer', s, z3.Implies(z3.Or(r == OK, g['calls'] != 0), g['sent'] == 1), 'a request that was processed is answered')
        P('answer', s, z3.Implies(r == READ_ON, g['sent'] == 0), 'nothing is sent before the request is complete')
        P('history', s, z3.Implies(r == OK, same(s, x, y)), 'an answered request leaves nothing behind in the session'); P('history', s, z3.Implies(z3.And(r == READ_ON, z3.Not(header)), same(s, x, y, g['close'])), 'an incomplete header leaves nothing behind in the session but its own request to close it')
        if not first: P('history', s, z3.Implies(r == READ_ON, same(s, x, before[g['before']])), 'waiting for more of the body changes nothing'); return False
        s2 = s.copy(); s2.assume(z3.And(r == READ_ON, header)); s2.model = None
        if ex.check(s2.pc, [])[0] == 'unsat': return False
        before.append(x); s2.ghost['phase'] = b8(2); s2.ghost['before'] = len(before) - 1; cover(ex, s2, 'waits for the body'); return [(s, False), (s2, True)]
    def cands(ex, entry, v0, ints, keys):
        out = []; g = lambda vw: vw.st.ghost['i']
        for k, G, w, pp in ints:
            if w != 32: continue
            G = (lambda vw, G=G: b64(G(vw))); x = k[:3]; i0 = G(v0); h = lambda vw, G=G: x32(G(vw))
            out += [(f'{x} in the first line', lambda vw, G=G: z3.And(G(vw) >= 0, G(vw) <= d0)), (f'{x} at most behind the first line', lambda vw, G=G: z3.And(G(vw) >= 0, G(vw) <= d0 + 1)), (f'{x} closes', lambda vw, h=h: h(vw) == vw.st.ghost['close']), (f'{x}: word', lambda vw, G=G, i0=i0: z3.And(S(G(vw)) == S(i0), z3.ULE(i0, G(vw))))]
            i2 = norm(G(v0))
            if i2 == 0: out += [(f'{x}: type start', lambda vw, h=h: TS(g(vw), h(vw)) == TS(b64(0), nil32)), (f'{x}: type size', lambda vw, h=h: TN(g(vw), h(vw)) == TN(b64(0), nil32)), (f'{x}: close', lambda vw, h=h: CL(g(vw), h(vw)) == CL(b64(0), nil32)), (f'{x} reaction', lambda vw, G=G: z3.Or(G(vw) == OK, G(vw) == DISCONNECT))]
            for k2, G2, w2, pp2 in ints:
                if w2 == 32 and k2 is not k: out.append((f'{x}{k2[:3]}: a range inside', lambda vw, G=G, G2=G2: z3.And(G(vw) >= 0, b64(G2(vw)) >= 0, G(vw) + b64(G2(vw)) <= n1)))
        return out
    ex.cand_hooks = [cands]; ex.measure_hooks.append(lambda ex, entry, v0, ints, keys: [('headers left', lambda vw: H - vw.st.ghost['i'])])
    st.ghost.update(status=nil32, sent=b8(0), expected=z3.BitVecVal(501, 32), calls=b8(0), phase=b8(1), before=0, close=nil32, i=b64(0), session=NULL, fresh=NULL)
    for s in call(ex, st, 'h_step', [src, n1, n2]):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
    need_covers(ex, 'GET', 'POST', 'first step', 'waits for the body', 'second step'); return ex
