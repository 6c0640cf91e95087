from jlib import *
HARNESS = 'json.cpp'; NATIVE = 'j05.cpp'
BAD = z3.BitVecVal((1 << 64) - 1, 64)
def skipper(sp, S, n):
    "SK(p, d): where the value ends whose part before p opened d brackets; SS(p, d): the same from inside a string; BAD if the document is cut"
    f = [None, None]
    def sk(p, d):
        c = S(p); opens = z3.Or(c == b8('{'), c == b8('[')); closes = z3.Or(c == b8('}'), c == b8(']'))
        go = lambda q, d: z3.If(z3.UGE(q, n), z3.If(d == 0, q, BAD), f[0](q, d))
        return z3.If(z3.UGE(p, n), BAD, z3.If(opens, go(p + 1, d + 1), z3.If(closes, z3.If(d == 0, p, z3.If(d == 1, p + 1, go(p + 1, d - 1))),
            z3.If(c == b8('"'), f[1](p + 1, d), z3.If(z3.And(d == 0, z3.Or(*[c == b8(x) for x in ' \t\r\n,'])), p, go(p + 1, d))))))
    def ss(p, d):
        c = S(p)
        return z3.If(z3.UGE(p, n), BAD, z3.If(c == b8('"'), z3.If(d == 0, p + 1, z3.If(z3.UGE(p + 1, n), BAD, f[0](p + 1, d))), z3.If(c == b8('\\'), z3.If(z3.UGE(p + 1, n), BAD, f[1](p + 2, d)), f[1](p + 1, d))))
    f[0] = sp.define('SK', [W64, W64], W64, sk); f[1] = sp.define('SS', [W64, W64], W64, ss)
    return f
def skip(m):
    """any document, any position: if a complete value follows the separators (brackets matched outside strings, strings ended by an unescaped quote, words and numbers by a separator, bracket or the end), the position is right behind it and nothing is thrown"""
    ex, st, sp = setup(m); n, src, pos, p, S, end = source(ex, st); WS = scan(sp, 'WS', S, n, is_ws); q = WS(p); SK, SS = skipper(sp, S, n)
    R = SK(q, z3.BitVecVal(0, 64))
    def cands(ex, entry, v0, ints, keys):
        o = []
        big = [(k, G) for k, G, w, pp in ints if w >= 32]
        depths = [(k, (lambda vw, G=G: b64(G(vw)))) for k, G in big if k[0] == 'phi' or k[0] == 'cell'] + [('0', lambda vw: z3.BitVecVal(0, 64))]
        for k, v in ex.loop_regs(entry): depths.append((k, lambda vw, v=v: v))
        for k, G in big:
            for dk, Gd in depths:
                if dk == k: continue
                o.append((f'SK({k[:3]},{str(dk)[:20]})=R', lambda vw, G=G, Gd=Gd: z3.Implies(R != BAD, SK(b64(G(vw)), Gd(vw)) == R)))
                for d in (0,): o.append((f'SS({k[:3]},{str(dk)[:20]})=R', lambda vw, G=G, Gd=Gd: z3.Implies(R != BAD, SS(b64(G(vw)), Gd(vw)) == R)))
        return o
    ex.loop_regs = lambda entry: [(f'reg{k}', sext(v, 32, 64)) for k, v in entry.frames[-1].regs.items() if isz(v) and z3.is_bv(v) and v.size() == 32][:6]
    ex.cand_hooks = [positions(lambda ex: [('WS=WS(p)', lambda vw, x: WS(x) == q)]), chars(S, n, (0, 1)), cands]
    for s in call(ex, st, 'h_skip', [src, n, pos, end]):
        if isinstance(s.result, Throw): ex.oblige(s, R == BAD, 'a complete value is skipped without an error'); continue
        cover(ex, s, 'skipped'); e = z3.SignExt(32, bv(ex.rd(s, end, 4, 'i32'), 32))
        ex.oblige(s, z3.Implies(R != BAD, e == R), 'the position is right behind the value')
    need_covers(ex, 'skipped'); return ex
def seek(m):
    """any two positions: storePosition returns the current position, restorePosition moves to the given one"""
    ex, st, sp = setup(m); n, src, pos, p, S, end = source(ex, st); other = z3.BitVec('elsewhere', 32)
    for s in call(ex, st, 'h_seek', [src, n, pos, other]):
        if isinstance(s.result, Throw): ex.oblige(s, False, 'does not throw'); continue
        cover(ex, s, 'back'); ex.oblige(s, bv(s.result, 32) == pos, 'the stored position is restored')
    need_covers(ex, 'back'); return ex
PROOFS = [skip, seek]
