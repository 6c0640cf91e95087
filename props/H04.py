from hserver import *
HARNESS = 'http.cpp'; NATIVE = 'h04.cpp'
def history(m):
    """a session in any state an answered request leaves behind, any header (parse under its contract), the body in one piece or two: a request that was answered leaves the session as a new one in everything a later request may depend on (the rest is arbitrary at the start of the step, so that the step is an induction over the whole history); an incomplete request leaves nothing behind but itself; the content type handed over is the one of this request; the header is always read with a fresh state"""
    return step(m, 'history')
PROOFS = [history]
