from common import *
SRC = os.path.join(VERIF, 'tu/rlp.cpp')
WANT = ['dev::RLP::*', 'dev::RLPStream::*', 'dev::toInt*']
U64M = (1 << 64) - 1
def rlp_obj(u, loc, off, n):
    return u.I.new(RecV('dev::RLP', {'m_data': vref(loc, off, n), 'm_lastIndex': IntV(U64M, 64, False), 'm_lastEnd': IntV(0, 64, False), 'm_lastItem': nullref()}), 'rlp')
# ---------------- specification of an RLP item header (Ethereum Yellow Paper, appendix B)
class Hdr:
    def __init__(self, g, n):
        """g(i): byte i as Int term; n: number of bytes available"""
        b = g(0); self.b = b
        self.null = n == 0
        self.list = And(n > 0, b >= 0xc0); self.data = And(n > 0, b < 0xc0)
        self.single = And(n > 0, b < 0x80)
        sd = And(b >= 0x80, b <= 0xb7); ld = And(b >= 0xb8, b <= 0xbf); sl = And(b >= 0xc0, b <= 0xf7); ll = b >= 0xf8
        ls = If(ld, b - 0xb7, If(ll, b - 0xf7, 0)); self.ls = ls
        L = z3.IntVal(0)
        for k in range(8, 0, -1): L = If(ls == k, be(g, 1, k), L)
        self.off = If(self.single, 0, 1 + ls)
        self.len = If(self.null, 0, If(self.single, 1, If(sd, b - 0x80, If(sl, b - 0xc0, L))))
        bad81 = And(b == 0x81, Or(n < 2, g(1) < 0x80))
        badlong = And(Or(ld, ll), Or(n <= ls, g(1) == 0, L < 56))
        self.malformed = And(n > 0, Or(bad81, badlong))
        self.huge = And(n > 0, Or(ld, ll), n > ls, L >= U64M - 0x100)
        self.ok = Not(Or(self.malformed, self.huge))
        self.total = self.off + self.len
And, Or, Not = z3.And, z3.Or, z3.Not
def hdr_of(u, s, off=0, n=None):
    return Hdr(lambda i: s.get(u.I.tadd(off, i)).t, s.n if n is None else n)
def u_length(u):
    loc, s = bytes_in(u); r = rlp_obj(u, loc, 0, s.n); H = hdr_of(u, s)
    exc, v = u.throws(lambda: u.call('dev::RLP::length', [r]))
    if exc is None:
        u.cover('length() returns'); u.prove('length() accepts only well-formed headers', H.ok); u.prove('length() is the encoded payload length', v.t == H.len)
    else:
        u.cover('length() rejects'); u.prove('length() rejects only malformed headers', Not(H.ok)); u.prove('length() throws an RLPException', exc in ('dev::BadRLP', 'dev::UndersizeRLP'))
def length_contract(I, e, fr, args):
    """contract of RLP::length, discharged by unit rlp.length"""
    d = I.read(args[0]).f['m_data']; p = d.f['m_data']; n = d.f['m_count'].t
    if p.loc is None: return IntV(0, 64, False)
    s = I.read(p.loc); H = Hdr(lambda i: s.get(I.tadd(p.off, i)).t, n)
    if not I.p.branch(H.ok): raise CxxThrow('dev::BadRLP')
    return IntV(H.len, 64, False, 0, U64M - 0x100)
CON = {'dev::RLP::length': length_contract}
def u_payload(u):
    loc, s = bytes_in(u); r = rlp_obj(u, loc, 0, s.n); H = hdr_of(u, s)
    exc, v = u.throws(lambda: u.call('dev::RLP::payload', [r]))
    if exc is None:
        d, n = v.f['m_data'], v.f['m_count'].t
        u.cover('payload() returns')
        if d.loc is not None:
            u.prove('payload starts after the header', d.off == H.off); u.prove('payload is the declared bytes', n == H.len); u.prove('payload lies inside the item', And(d.off >= 0, d.off + n <= s.n))
        else: u.prove('no null view of a non-empty item', s.n == 0)
    else: u.prove('payload() rejects only malformed or truncated items', Or(Not(H.ok), H.total > s.n))
def u_ctor(strict):
    def f(u):
        loc, s = bytes_in(u); H = hdr_of(u, s)
        exc, v = u.throws(lambda: u.construct('dev::RLP::(ctor)', [vref(loc, 0, s.n), IntV(strict, 32, True)], lambda I, fn: len(fn['params']) == 2 and I._strip(fn['params'][0]['t']).get('qn') == 'dev::vector_ref'))
        fits = And(H.ok, (H.total == s.n) if strict & 16 else (H.total >= s.n))
        if exc is None:
            u.cover('accepts'); u.prove('accepts exactly the items that fill their buffer', Or(s.n == 0, fits))
        else:
            u.cover('rejects'); u.prove('rejects only malformed / wrong-size input', Not(Or(s.n == 0, fits)))
            u.prove('throws an RLPException', exc in ('dev::BadRLP', 'dev::UndersizeRLP', 'dev::OversizeRLP'))
    return f
def u_toint(w, pred):
    def f(u):
        loc, s = bytes_in(u); r = rlp_obj(u, loc, 0, s.n); H = hdr_of(u, s)
        u.assume(And(H.ok, H.total == s.n))           # item constructed in VeryStrict mode
        exc, v = u.throws(lambda: u.call('dev::RLP::toInt', [r, IntV(4 | 8, 32, True)], pred))
        g = lambda i: s.get(i).t
        first = If(H.ls == 0, 1, 1)
        canon = And(s.n > 0, H.data, H.len <= w // 8, Or(H.len == 0, If(H.single, H.b, s.get(H.off).t) != 0))
        if exc is None:
            u.cover('decodes'); u.prove('accepts only canonical integers that fit', canon)
            val = z3.IntVal(0)
            n = v.t
            for k in range(w // 8, 0, -1): val = If(H.len == k, If(H.single, H.b, be(g, 1, k)), val)
            u.prove('value is the big-endian payload', n == val)
        else:
            u.cover('rejects'); u.prove('rejects only non-canonical or oversized integers', Not(canon)); u.prove('throws BadCast or BadRLP', exc in ('dev::BadCast', 'dev::BadRLP'))
    return f
def rett(w): return lambda I, fn: (I.T[fn['ret']].get('w') or (I.as_bigint(I.T[fn['ret']]) or [0])[0]) == w and not I.T[fn['ret']].get('sg')
def u_tohash(N):
    def f(u):
        I = u.I
        loc, s = bytes_in(u); r = rlp_obj(u, loc, 0, s.n); H = hdr_of(u, s)
        u.assume(And(H.ok, H.total == s.n))
        exc, v = u.throws(lambda: u.call('dev::RLP::toHash', [r, IntV(4 | 8 | 16, 32, True)], lambda I, fn: I.T[fn['ret']]['args'][0].get('v') == str(N)))
        if exc is None:
            u.cover('decodes'); u.prove('accepts only data of exactly the hash length', And(s.n > 0, H.data, H.len == N))
            d = v.f['m_data']; i = I.fresh_idx('i')
            u.prove('hash bytes are the payload bytes', z3.Implies(And(i >= 0, i < N), d.get(i).t == s.get(H.off + i).t))
        else: u.cover('rejects'); u.prove('rejects only wrong length or lists', Not(And(s.n > 0, H.data, H.len == N)))
    return f
def seq_is(u, name, got, want):
    """got sequence equals specification sequence (skolemised)"""
    u.prove(name + ' (length)', u.I.teq(got.n, want.n))
    i = u.I.fresh_idx('i')
    u.prove(name + ' (content)', Imp(u.I.inrange(i, want.n), u.I.veq(got.get(i), want.get(i))))
def u_tobytes(u):
    loc, s = bytes_in(u); r = rlp_obj(u, loc, 0, s.n); H = hdr_of(u, s)
    u.assume(And(H.ok, H.total == s.n))
    exc, v = u.throws(lambda: u.call('dev::RLP::toBytes', [r, IntV(4, 32, True)]))
    if exc is None:
        u.cover('decodes'); u.prove('only data items', And(s.n > 0, H.data))
        seq_is(u, 'toBytes() is the payload', v, SeqV(H.len, lambda i: s.get(H.off + i)))
    else: u.cover('rejects'); u.prove('rejects only lists and null', Not(And(s.n > 0, H.data)))
# ---------------- iteration over list items
def u_iter_begin(u):
    loc, s = bytes_in(u); r = rlp_obj(u, loc, 0, s.n); H = hdr_of(u, s)
    u.assume(And(H.ok, H.total == s.n, H.list))
    exc, it = u.throws(lambda: u.construct('dev::RLP::iterator::(ctor)', [r, True], lambda I, fn: len(fn['params']) == 2))
    if exc is None:
        cur = it.f['m_currentItem']; d, n = cur.f['m_data'], cur.f['m_count'].t; rem = it.f['m_remaining'].t
        u.cover('begin()')
        if d.loc is None: u.prove('empty list', And(n == 0, rem == 0, H.len == 0)); return
        u.prove('first item starts at the payload', d.off == H.off); u.prove('current item and remainder partition the payload', n + rem == H.len)
        u.prove('first item nonempty', Imp(H.len > 0, n > 0))
    else: u.prove('throws an RLPException', exc in ('dev::BadRLP', 'dev::UndersizeRLP'))
def u_iter_next(u):
    """++it: the next item starts where the current one ends, never passes the end, and always makes progress"""
    I = u.I; loc, s = bytes_in(u)
    o = I.fresh_idx('o'); n = I.fresh_idx('n'); rem = I.fresh_idx('rem')
    u.assume(And(o >= 0, n >= 0, rem >= 0, o + n + rem <= s.n))
    it = I.new(RecV('dev::RLP::iterator', {'m_remaining': IntV(rem, 64, False), 'm_currentItem': vref(loc, o, n)}), 'it')
    exc, _ = u.throws(lambda: u.call('dev::RLP::iterator::operator++', [it], lambda I, fn: len(fn['params']) == 0))
    if exc is None:
        v = I.read(it); cur = v.f['m_currentItem']; d, n2 = cur.f['m_data'], cur.f['m_count'].t; r2 = v.f['m_remaining'].t
        u.cover('++ returns')
        u.prove('item non-null', d.loc is not None)
        u.prove('next item starts at the end of the current one', d.off == o + n)
        u.prove('stays inside the list', n2 + r2 == rem)
        u.prove('progress: remaining bytes shrink', Imp(rem > 0, And(n2 > 0, r2 < rem)))
        H = Hdr(lambda i: s.get(o + n + i).t, rem)
        u.prove('item has its encoded size', Imp(rem > 0, n2 == H.total))
    else: u.prove('throws an RLPException', exc in ('dev::BadRLP', 'dev::UndersizeRLP'))
# ---------------- RLPStream
def stream(u, stack=(), name='out'):
    """RLPStream whose output so far is arbitrary; stack = [(items left, start position)] from outermost to innermost"""
    I = u.I; f = u.fn('dev::RLPStream::appendRaw', lambda I, fn: I._strip(fn['params'][0]['t']).get('qn') == 'dev::vector_ref')
    out = I.fresh_seq(name, 8, False, maxlen=1 << 40); rec = I.tu.records[str(I.T[f['cls']]['rec'])]
    fld = {x['n']: x['t'] for x in rec['fields']}
    et = I.T[fld['m_listStack']]['args'][0]['t']; out.et = I.T[fld['m_out']]['args'][0]['t']
    st = I.seq_of([RecV('std::pair', {'first': IntV(c, 64, False), 'second': IntV(p, 64, False)}) for c, p in stack], et)
    return I.new(RecV('dev::RLPStream', {'m_out': out, 'm_listStack': st}), 'stream'), out
def header(u, n, short, long_):
    """canonical header byte sequence for a payload of n bytes"""
    I = u.I
    if u.p.branch(n < 56 if not isc(n) else n < 56): return I.seq_of([IntV(short + n, 8, False)])
    for k in range(1, 9):
        if u.p.branch(n < 256 ** k):
            return I.seq_of([IntV(long_ + k, 8, False)] + [IntV(idiv(n, 256 ** (k - 1 - j)) % 256, 8, False) for j in range(k)])
    raise PathEnd()
def canon_string(u, s):
    """canonical RLP of a byte string"""
    if u.p.branch(s.n == 1) and u.p.branch(s.get(0).t < 0x80): return u.I.seq_of([s.get(0)])
    return u.I.concat(header(u, s.n, 0x80, 0xb7), s)
def be_min(u, v, maxb=32):
    for k in range(0, maxb + 1):
        if u.p.branch(v < 256 ** k): return u.I.seq_of([IntV(idiv(v, 256 ** (k - 1 - j)) % 256, 8, False) for j in range(k)])
    raise PathEnd()
def state_of(u, so):
    v = u.I.read(so); return v.f['m_out'], v.f['m_listStack']
VR = lambda I, fn: I._strip(fn['params'][0]['t']).get('qn') == 'dev::vector_ref'
def u_append_bytes(u):
    so, out = stream(u); loc, s = bytes_in(u, 'x'); 
    exc, _ = u.throws(lambda: u.call('dev::RLPStream::append', [so, vref(loc, 0, s.n), False], lambda I, fn: VR(I, fn) and len(fn['params']) == 2))
    u.prove('append(bytes) does not throw', exc is None)
    o, st = state_of(u, so); u.cover('appends')
    seq_is(u, 'output is old output followed by the canonical encoding', o, u.I.concat(out, canon_string(u, s)))
def u_append_int(u):
    so, out = stream(u); v = int_in(u, 'v', 256)
    big = IntV(v.t, 0, True, 0, (1 << 256) - 1)
    exc, _ = u.throws(lambda: u.call('dev::RLPStream::append', [so, big], lambda I, fn: len(fn['params']) == 1 and (I.as_bigint(I._strip(fn['params'][0]['t'])) or [1])[0] == 0))
    u.prove('append(integer) does not throw', exc is None)
    o, st = state_of(u, so); u.cover('appends')
    b = be_min(u, v.t)
    want = canon_string(u, b) if not (isc(b.n) and b.n == 1) else (b if u.p.branch(b.get(0).t < 0x80) else u.I.concat(u.I.seq_of([IntV(0x81, 8, False)]), b))
    seq_is(u, 'integer is appended as its minimal big-endian string', o, u.I.concat(out, want))
def u_append_list_raw(u):
    so, out = stream(u); loc, s = bytes_in(u, 'x')
    exc, _ = u.throws(lambda: u.call('dev::RLPStream::appendList', [so, vref(loc, 0, s.n)], VR))
    u.prove('appendList(payload) does not throw', exc is None); u.cover('appends')
    o, st = state_of(u, so)
    seq_is(u, 'list payload gets its canonical list header', o, u.I.concat(out, u.I.concat(header(u, s.n, 0xc0, 0xf7), s)))
def u_append_raw(u):
    so, out = stream(u); loc, s = bytes_in(u, 'x')
    exc, _ = u.throws(lambda: u.call('dev::RLPStream::appendRaw', [so, vref(loc, 0, s.n), IntV(1, 64, False)], VR))
    u.prove('appendRaw does not throw', exc is None); u.cover('appends')
    o, st = state_of(u, so); seq_is(u, 'raw item is copied verbatim', o, u.I.concat(out, s))
def u_append_list_open(u):
    so, out = stream(u); n = int_in(u, 'n', 64)
    exc, _ = u.throws(lambda: u.call('dev::RLPStream::appendList', [so, n], lambda I, fn: I._strip(fn['params'][0]['t'])['k'] == 'int'))
    u.prove('appendList(n) does not throw', exc is None); o, st = state_of(u, so); u.cover('opens')
    if u.p.branch(n.t == 0): seq_is(u, 'empty list is 0xc0', o, u.I.concat(out, u.I.seq_of([IntV(0xc0, 8, False)]))); u.prove('no open list', st.n == 0)
    else:
        seq_is(u, 'nothing is written before the items', o, out)
        u.prove('one open list', st.n == 1); e = st.get(0); u.prove('expects n items from here', And(e.f['first'].t == n.t, e.f['second'].t == out.n))
def close(u, out, p):
    """specification: list payload out[p..] gets its header inserted"""
    I = u.I; pay = SeqV(out.n - p, lambda i: out.get(p + i), out.et)
    return I.concat(SeqV(p, out.get, out.et), I.concat(header(u, pay.n, 0xc0, 0xf7), pay))
def u_note(depth):
    def f(u):
        I = u.I; stack = []; 
        prev = z3.IntVal(0)
        for d in range(depth):
            c = int_in(u, 'c%d' % d, 64); p = I.fresh_idx('p%d' % d); u.assume(And(c.t >= 1, p >= prev)); prev = p; stack.append((c.t, p))
        so, out = stream(u, stack); u.assume(prev <= out.n)
        k = int_in(u, 'k', 64); u.assume(k.t >= 1)
        exc, _ = u.throws(lambda: u.call('dev::RLPStream::noteAppended', [so, k]))
        if exc is None:
            u.cover('returns'); o, st = state_of(u, so); cur = out; left = k.t; i = depth - 1; lim = depth
            while i >= 0:
                c, p = stack[i]
                u.prove('never counts more items than announced', c >= left)
                if u.p.branch(c > left):
                    u.prove('open lists kept (%d)' % i, I.teq(st.n, i + 1)); u.prove('items left decreases', st.get(i).f['first'].t == c - left); u.prove('start kept', st.get(i).f['second'].t == p); break
                cur = close(u, cur, p); left = z3.IntVal(1); i -= 1
            else: u.prove('all lists closed', I.teq(st.n, 0))
            seq_is(u, 'every completed list gets its canonical header, innermost first', o, cur)
        else:
            u.cover('throws'); u.prove('throws only when too many items are appended', exc == 'dev::RLPException'); 
    return f
def u_out(u):
    so, out = stream(u)
    exc, v = u.throws(lambda: u.call('dev::RLPStream::out', [so])); u.prove('out() returns a complete encoding', exc is None); u.cover('complete')
    seq_is(u, 'out() is the stream', u.I.val(v), out)
    c = int_in(u, 'c', 64); so, out = stream(u, [(c.t, z3.IntVal(0))])
    exc, v = u.throws(lambda: u.call('dev::RLPStream::out', [so])); u.prove('out() rejects unfinished lists', exc == 'dev::RLPException')
# ---------------- round trip: decoding what append() wrote gives the value back
def u_roundtrip_bytes(u):
    I = u.I; so, out = stream(u); st = I.read(so); I.write(so, RecV(st.qn, {**st.f, 'm_out': SeqV(0, out.get, out.et)}))
    loc, s = bytes_in(u, 'x')
    u.call('dev::RLPStream::append', [so, vref(loc, 0, s.n), False], lambda I, fn: VR(I, fn) and len(fn['params']) == 2)
    o, _ = state_of(u, so); oloc = I.new(o, 'enc')
    exc, r = u.throws(lambda: u.construct('dev::RLP::(ctor)', [vref(oloc, 0, o.n), IntV(28, 32, True)], lambda I, fn: len(fn['params']) == 2 and VR(I, fn)))
    u.prove('strict decoder accepts the encoding', exc is None)
    exc, v = u.throws(lambda: u.call('dev::RLP::toBytes', [I.new(r), IntV(4, 32, True)]))
    u.prove('toBytes accepts the encoding', exc is None); u.cover('decodes')
    seq_is(u, 'decode(encode(x)) == x', v, s)
RLPU = dict(src=SRC, want=WANT)
ENC_UNITS = [
    dict(name='rlp.append.bytes', body=u_append_bytes, **RLPU),
    dict(name='rlp.append.integer', body=u_append_int, **RLPU),
    dict(name='rlp.appendList.payload', body=u_append_list_raw, **RLPU),
    dict(name='rlp.appendRaw', body=u_append_raw, **RLPU),
    dict(name='rlp.appendList.open', body=u_append_list_open, **RLPU),
    dict(name='rlp.noteAppended.depth0', body=u_note(0), **RLPU),
    dict(name='rlp.noteAppended.depth1', body=u_note(1), **RLPU),
    dict(name='rlp.noteAppended.depth2', body=u_note(2), **RLPU),
    dict(name='rlp.out', body=u_out, **RLPU),
    dict(name='rlp.roundtrip.bytes', body=u_roundtrip_bytes, cfg={'contracts': CON}, **RLPU),
]
DEC_UNITS = [
    dict(name='rlp.length', body=u_length, **RLPU),
    dict(name='rlp.payload', body=u_payload, cfg={'contracts': CON}, **RLPU),
    dict(name='rlp.ctor.VeryStrict', body=u_ctor(28), cfg={'contracts': CON}, **RLPU),
    dict(name='rlp.ctor.Strict', body=u_ctor(12), cfg={'contracts': CON}, **RLPU),
    dict(name='rlp.toInt.u256', body=u_toint(256, rett(256)), cfg={'contracts': CON}, **RLPU),
    dict(name='rlp.toInt.u64', body=u_toint(64, rett(64)), cfg={'contracts': CON}, **RLPU),
    dict(name='rlp.toInt.u32', body=u_toint(32, rett(32)), cfg={'contracts': CON}, **RLPU),
    dict(name='rlp.toHash.h256', body=u_tohash(32), cfg={'contracts': CON, 'hash_bytes': True}, **RLPU),
    dict(name='rlp.toHash.h160', body=u_tohash(20), cfg={'contracts': CON, 'hash_bytes': True}, **RLPU),
    dict(name='rlp.toBytes', body=u_tobytes, cfg={'contracts': CON}, **RLPU),
    dict(name='rlp.iterator.begin', body=u_iter_begin, cfg={'contracts': CON}, **RLPU),
    dict(name='rlp.iterator.next', body=u_iter_next, cfg={'contracts': CON}, **RLPU),
]
if __name__ == '__main__': main(ENC_UNITS + DEC_UNITS)
