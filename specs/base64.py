from common import *
from conv import seq_is, loop
SRC = 'libdevcore/Base64.cpp'
And, Or, Not = z3.And, z3.Or, z3.Not
def b64(v): return If(v < 26, v + 65, If(v < 52, v + 71, If(v < 62, v - 4, If(v == 62, 43, 47))))
def isb(c): return Or(And(c >= 65, c <= 90), And(c >= 97, c <= 122), And(c >= 48, c <= 57), c == 43, c == 47)
def unb(c): return If(And(c >= 65, c <= 90), c - 65, If(And(c >= 97, c <= 122), c - 71, If(And(c >= 48, c <= 57), c + 4, If(c == 43, 62, If(c == 47, 63, 64)))))
CON = {'is_base64': lambda I, e, fr, a: isb(I.val(a[0]).t), 'find_base64_char_index': lambda I, e, fr, a: IntV(unb(I.val(a[0]).t), 8, False, 0, 64)}
S = dict(src=SRC, want=['dev::toBase64', 'dev::fromBase64', 'is_base64', 'find_base64_char_index'], mode='int')
def sext(b, p):
    """sextet p (0..3 of group p/4) of the byte string b: specification of the bit stream cut into six-bit digits"""
    g = p / 4; r = p % 4; x, y, z = b(3 * g), b(3 * g + 1), b(3 * g + 2)
    return If(r == 0, x / 4, If(r == 1, (x % 4) * 16 + y / 16, If(r == 2, (y % 16) * 4 + z / 64, z % 64)))
def oct8(d, q):
    """byte q of the bit stream made of the six-bit digits d"""
    g = q / 3; r = q % 3; a, b, c, e = d(4 * g), d(4 * g + 1), d(4 * g + 2), d(4 * g + 3)
    return If(r == 0, a * 4 + b / 16, If(r == 1, (b % 16) * 16 + c / 4, (c % 4) * 64 + e))
def u_isb(u):
    c = int_in(u, 'c', 8); r = u.call('is_base64', [c]); u.cover('returns'); u.prove('exactly the 64 digits', B(r) == isb(c.t))
def u_find(u):
    c = int_in(u, 'c', 8); r = u.call('find_base64_char_index', [c]); u.cover('returns'); u.prove('value of every digit, 64 for other characters', r.t == unb(c.t)); u.prove('digit of a value found again', Imp(isb(c.t), b64(unb(c.t)) == c.t))
def u_enc(u):
    loc, s = bytes_in(u, 'in', maxlen=1 << 40); n = s.n; by = lambda i: s.get(i if not isc(i) else z3.IntVal(i)).t
    def ret(k): return SeqV(4 * (k / 3 if not isc(k) else k // 3), lambda p: IntV(b64(sext(by, p if not isc(p) else z3.IntVal(p))), 8, True), kind='str')
    def st(I, env, k):
        v = env.entry(env('ret')); r = ret(k); return [(env('bufLen'), IntV(n - k, 64, False)), (env('i'), IntV(k % 3, 32, True)), (env('ret'), SeqV(r.n, r.get, v.et, v.kind))]
    def inv(I, env, k):
        a = env.v('char_array_3'); return [('bytes of the open group kept (%d)' % j, Imp(B(k % 3 > j), a.get(j).t == by(k - k % 3 + j))) for j in (0, 1)] + [('inside the input', k <= n)]
    loop(u, 'dev::toBase64', LoopSpec(inv, st, name='encode loop'), 0)
    r = u.call('dev::toBase64', [vref(loc, 0, n)]); u.cover('returns'); r = u.I.val(r)
    bp = lambda i: If(i < n, by(i), 0)
    seq_is(u, 'standard padded base 64', r, SeqV(4 * ((n + 2) / 3), lambda p: IntV(If(p < n + (n + 2) / 3, b64(sext(bp, p)), 61), 8, True)))
def u_dec(u):
    loc, s = bytes_in(u, 's', maxlen=(1 << 31) - 1, signed=True, kind='str'); n = s.n; ch = lambda i: s.get(i if not isc(i) else z3.IntVal(i)).t; q = z3.Int('q!b'); dg = lambda i: unb(ch(i))
    cut = {}
    def st(I, env, k):
        cut['k'] = k; v = env.entry(env('ret')); return [(env('in_len'), IntV(n - k, 64, False)), (env('in_'), IntV(k, 32, True)), (env('i'), IntV(k % 4, 32, True)), (env('ret'), SeqV(3 * (k / 4 if not isc(k) else k // 4), lambda p: IntV(oct8(dg, p if not isc(p) else z3.IntVal(p)), 8, False), v.et, v.kind))]
    def inv(I, env, k):
        a = env.v('char_array_4'); return [('digits of the open group kept (%d)' % j, Imp(B(k % 4 > j), a.get(j).t == ch(k - k % 4 + j))) for j in (0, 1, 2)] + [('only digits so far', z3.ForAll([q], Imp(And(q >= 0, q < k), isb(ch(q))))), ('inside the text', k <= n)]
    loop(u, 'dev::fromBase64', LoopSpec(inv, st, name='decode loop'), 0)
    r = u.call('dev::fromBase64', [loc]); u.cover('returns'); r = u.I.val(r)
    m = u.I.fresh_idx('m'); u.p.assume(And(m >= 0, m <= n, z3.ForAll([q], Imp(And(q >= 0, q < m), isb(ch(q)))), Or(m == n, Not(isb(ch(m))))))   # m: length of the leading run of digits
    seq_is(u, 'bytes of the leading digits', r, SeqV(3 * (m / 4) + If(m % 4 > 1, m % 4 - 1, 0), lambda p: IntV(oct8(lambda i: If(i < m, dg(i), 0), p), 8, False)))
def u_round(u):
    """decoding what encoding yields, from the two specifications (both lengths and every byte)"""
    loc, s = bytes_in(u, 'in', maxlen=1 << 29); n = s.n; by = lambda i: s.get(i).t; bp = lambda i: If(i < n, by(i), 0); m = n + (n + 2) / 3; L = 4 * ((n + 2) / 3); p = u.I.fresh_idx('p')
    txt = lambda p: If(p < m, b64(sext(bp, p)), 61); u.cover('returns')
    u.prove('the digits form the leading run', And(Imp(And(p >= 0, p < m), isb(txt(p))), Imp(And(p >= m, p < L), Not(isb(txt(p)))), m <= L))
    u.prove('length', 3 * (m / 4) + If(m % 4 > 1, m % 4 - 1, 0) == n); u.prove('every byte', Imp(And(p >= 0, p < n), oct8(lambda i: If(i < m, unb(txt(i)), 0), p) == by(p)))
CC = {'contracts': CON}
UNITS = [dict(S, name='base64.digit', body=u_isb), dict(S, name='base64.value', body=u_find), dict(S, name='base64.encode', body=u_enc, cfg=CC), dict(S, name='base64.decode', body=u_dec, cfg=CC), dict(S, name='base64.roundtrip', body=u_round)]
if __name__ == '__main__': main(UNITS)
