"""the message in the data a reverted call returns (C26)"""
from common import *
SRC = os.path.join(VERIF, 'tu/ethutils.cpp'); And, Or, Not = z3.And, z3.Or, z3.Not
def u_reason(u):
    loc, b = bytes_in(u, 'data'); n = b.n; r = u.I.val(u.call('skutils::eth::call_error_message_2_str', [loc])); u.cover('reads')
    by = lambda i: b.get(i).t
    head = And(n > 68, by(0) == 0x08, by(1) == 0xc3, by(2) == 0x79, by(3) == 0xa0); off = 36 + be(by, 32, 4); ln = be(by, 64, 4); fits = And(head, off + ln <= n); k = z3.Int('some character'); rn = z3.IntVal(r.n) if isc(r.n) else r.n
    ch = (lambda i: r.get(i).t) if not (isc(r.n) and r.n == 0) else (lambda i: z3.IntVal(0))
    u.prove('without a message inside the data the reason is empty', Imp(Not(fits), rn == 0)); u.prove('the reason is never longer than the message', Imp(fits, rn <= ln))
    inr = And(fits, k >= 0, k < rn); c = ch(k); c = z3.IntVal(c) if isc(c) else c
    u.prove('each character is that of the message', Imp(inr, And((c - by(off + k)) % 256 == 0, by(off + k) != 0))); u.prove('the reason ends with the message or at its first zero byte', Imp(And(fits, rn < ln), by(off + rn) == 0))
UNITS = [dict(src=SRC, want=['skutils::eth::*'], mode='int', name='ethutils.reason', body=u_reason)]
if __name__ == '__main__': main(UNITS)
