from jlib import *
HARNESS = 'json.cpp'; NATIVE = 'j04.cpp'; LIMIT = 400
def operation(fn, doc, args=(), strings=False):
    def proof(m):
        ex, st, sp = setup(m); Numbers(ex.contracts_front); n, src, pos, p, S, end = source(ex, st)
        ex.cand_hooks = [chars(S, n, (0, 1))]
        extra = [Ptr(ex.new_obj(st, 'value', 1, 'out'), 0) for _ in args]
        for e in extra: ex.wr(st, e, 1, 0)
        @ex.contracts_front.on(r'^v_member$')
        def vm(ex, s, a, I):
            "member callback: reads any amount further on, may throw, any answer"
            inp = a[0]; cell = Ptr(inp.obj, add64(inp.off, 40)); at = z3.SignExt(32, bv(ex.rd(s, cell, 4, 'i32'), 32))
            ex.oblige(s, z3.And(at >= 0, at <= n), 'the callback finds the position inside the input')
            new = z3.BitVec(fresh_name('moved'), 32); n64 = z3.SignExt(32, new); s.assume(z3.And(n64 >= at, n64 <= n)); ex.wr(s, cell, 4, new)
            return z3.Bool(fresh_name('go'))
        for s in call(ex, st, fn, [src, n, pos, end] + extra):
            if isinstance(s.result, Throw): ex.oblige(s, parse_error(ex, s), 'only ParseError or RemoteError is thrown'); continue
            cover(ex, s, fn); e = z3.SignExt(32, bv(ex.rd(s, end, 4, 'i32'), 32))
            ex.oblige(s, z3.And(e >= p, e <= n), 'the position stays inside the input and never moves back')
        need_covers(ex, fn); return ex
    proof.__doc__ = f'{doc} on any bytes at any position: no access outside the input, terminates, returns or throws ParseError/RemoteError, position stays in [start, size]'
    proof.__name__ = fn[2:]
    return proof
PROOFS = [operation('h_readObject', 'readObject'), operation('h_readString', 'readString'), operation('h_skip', 'skipObjectElement'), operation('h_readInt', 'readInt'), operation('h_readFloat', 'readFloat'), operation('h_identify', 'identifyType'),
    operation('h_readBool', 'readBool'), operation('h_readNull', 'readNull'), operation('h_startArray', 'startReadingArray'), operation('h_nextElement', 'nextArrayElement'), operation('h_endArray', 'endReadingArray'), operation('h_readOptional', 'readOptional', (1,))]
