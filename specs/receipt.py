from common import *
from conv import loop
SRC = os.path.join(VERIF, 'tu/receipt.cpp')
And, Or, Not = z3.And, z3.Or, z3.Not
INT = z3.IntSort()
S = dict(src=SRC, want=['dev::eth::LogEntry::*', 'dev::eth::TransactionReceipt::*', 'dev::eth::Block*', 'dev::eth::TransactionAddress::*', 'dev::rlpListAux', 'dev::rlpList'], mode='int')
EL, EI, EH, EB, EV_ = [z3.Function(n, INT, INT) for n in ('list', 'number', 'hash', 'string', 'hashes')]
def rd(I, x): return I.val(I.read(x) if isinstance(x, Loc) else x)
class Tag:       # identity of an opaque string / vector: carried by SeqV.tag
    pass
def item(I, v):
    v = rd(I, v)
    if isinstance(v, IntV): return EI(I.val(v).t if not isc(v.t) else z3.IntVal(v.t))
    if isinstance(v, bool) or isinstance(v, z3.BoolRef): return EI(z3.If(B(v), 1, 0))
    if isinstance(v, TermV): return EH(v.t)
    if isinstance(v, SeqV) and v.tag is not None: return v.tag
    raise Unsupported('item appended to an RLP stream: %r' % (v,))
def push(I, l, *ts):
    s = rd(I, l); ev = s.f['ev']; n = ev.n
    for t in ts: ev = app(I, ev, t)
    I.write(Loc(l.cell, l.path + (('f', 'ev'),)), ev); return l
def app(I, ev, t):
    n = ev.n
    if isc(n): 
        items = [ev.get(i) for i in range(n)] + [TermV(t, 'ev')]; return lits(items)
    return SeqV(I.tadd(n, 1), lambda i: TermV(z3.If(B(I.tlt(i, n)), ev.get(i).t, t), 'ev'), None, 'vec')
def lits(items):
    def get(i):
        if isc(i): return items[i]
        r = items[-1].t if items else z3.IntVal(-1)
        for k in range(len(items) - 2, -1, -1): r = z3.If(i == k, items[k].t, r)
        return TermV(r, 'ev')
    return SeqV(len(items), get, None, 'vec')
def c_ctor(I, e, fr, a):
    s = RecV('dev::RLPStream', {'ev': lits([])})
    if a: n = rd(I, a[0]); s = RecV('dev::RLPStream', {'ev': lits([TermV(EL(n.t if not isc(n.t) else z3.IntVal(n.t)), 'ev')])})
    return s
def c_list(I, e, fr, a):
    v = rd(I, a[1])
    return push(I, a[0], EL(v.t if not isc(v.t) else z3.IntVal(v.t)))
SC = {'dev::RLPStream::(ctor)': c_ctor, 'dev::RLPStream::appendList': c_list, 'dev::RLPStream::operator<<': lambda I, e, fr, a: push(I, a[0], item(I, a[1])), 'dev::RLPStream::append': lambda I, e, fr, a: push(I, a[0], item(I, a[1])), 'dev::RLPStream::out': lambda I, e, fr, a: I.new(rd(I, a[0]).f['ev']),
      'dev::rlp': lambda I, e, fr, a: lits([TermV(item(I, a[0]), 'ev')])}
def stream(u, n0=None):
    """a stream that already holds anything"""
    n0 = z3.Int('before'); u.assume(n0 >= 0); u.assume(n0 < 1 << 40); f = z3.Function('earlier', INT, INT)
    return u.I.new(RecV('dev::RLPStream', {'ev': SeqV(n0, lambda i: TermV(f(i), 'ev'), None, 'vec')}), 'stream')
def after(ev, *ts):
    n = ev.n
    def get(i):
        r = ev.get(i).t
        for k, t in enumerate(ts): r = z3.If(i == n + k, t, r)
        return TermV(r, 'ev')
    return SeqV(n + len(ts), get, None, 'vec')
def term(u, nm): t = z3.Int(nm); u.p.inputs[nm] = lambda m: str(m.eval(t, True)); return t
def tagged(u, nm, con, kind='vec', et=None):
    n = z3.Int('len_' + nm); u.assume(n >= 0); u.assume(n < 1 << 40); t = con(z3.Int(nm)); f = z3.Function('in_' + nm, INT, INT); u.p.inputs[nm + '.size'] = lambda m: str(m.eval(n, True))
    return SeqV(n, (lambda i: TermV(f(i), 'hash20')) if con is EV_ else (lambda i: IntV(f(i), 8, False)), et, kind, t)
def entry(u, nm=''): return RecV('dev::eth::LogEntry', {'address': TermV(term(u, 'address' + nm), 'hash20'), 'topics': tagged(u, 'topics' + nm, EV_), 'data': tagged(u, 'data' + nm, EB), 'c': OpaqueV('counter')})
# arbitrary log lists
LA, LT, LD = [z3.Function(n, INT, INT) for n in ('log.address', 'log.topics', 'log.data')]; ENC = z3.Function('encodingOfLog', INT, INT, INT, INT)
def ent(k):
    sq = lambda con, f: SeqV(z3.Function('len_' + str(con), INT, INT)(f(k)), lambda i: IntV(0, 8, False), None, 'vec', con(f(k)))
    return RecV('dev::eth::LogEntry', {'address': TermV(LA(k), 'hash20'), 'topics': sq(EV_, LT), 'data': sq(EB, LD), 'c': OpaqueV('counter')})
def encof(v): return ENC(v.f['address'].t, v.f['topics'].tag, v.f['data'].tag)
def c_logstream(I, e, fr, a): return push(I, a[1], encof(rd(I, a[0])))
def logs(u): n = z3.Int('len_log'); u.assume(n >= 0); u.assume(n < 1 << 40); u.p.inputs['log.size'] = lambda m: str(m.eval(n, True)); return SeqV(n, ent, None, 'vec')
def sameseq(u, a, b):
    if a.tag is not None and b.tag is not None: return a.tag == b.tag
    return u.I.veq(a, b, True)
VAR = 'boost::variant'
def variant(v): return RecV(VAR, {'which': 0 if isinstance(v, IntV) else 1, 'v': v})
def m_vget(I, e, fr, a):
    v = rd(I, a[0]); t = I._strip(e['t']) ; want = 0 if t['k'] == 'int' else 1
    if v.f['which'] != want: raise CxxThrow('boost::bad_get')
    return a[0].f('v') if isinstance(a[0], Loc) else v.f['v']
def c_vctor(I, e, fr, a): return variant(rd(I, a[0])) if a else variant(IntV(0, 8, False))
def c_vassign(I, e, fr, a):
    v = rd(I, a[1]); I.write(a[0], v if isinstance(v, RecV) else variant(v)); return a[0]
VC = {VAR + '::which': lambda I, e, fr, a: IntV(rd(I, a[0]).f['which'], 32, True), 'boost::get': m_vget, 'boost::relaxed_get': m_vget, 'boost::strict_get': m_vget, VAR + '::(ctor)': c_vctor, VAR + '::operator=': c_vassign}
PERSIST = 'dev::eth::TransactionReceipt::g_bEnableRevertReasonPersistence'
def receipt(u):
    st = [lambda: int_in(u, 'status', 8), lambda: TermV(term(u, 'root'), 'hash20')][u.p.choose(2)]()
    f = {'m_statusCodeOrStateRoot': variant(st), 'm_gasUsed': int_in(u, 'gasUsed', 256), 'm_bloom': TermV(term(u, 'bloom'), 'hash20'), 'm_log': logs(u), 'm_strRevertReason': tagged(u, 'reason', EB, 'str'), 'c': OpaqueV('counter')}
    persist = z3.Bool('persist'); u.I.cfg['globals'] = {PERSIST: lambda I, gd: persist}
    return RecV('dev::eth::TransactionReceipt', f), st, persist
def u_logenc(u):
    e = entry(u); s = stream(u); ev = rd(u.I, s).f['ev']; u.call('dev::eth::LogEntry::streamRLP', [u.I.new(e, 'entry'), s]); u.cover('returns')
    u.prove('a log entry is the list of its address, topics and data', u.I.veq(rd(u.I, s).f['ev'], after(ev, EL(z3.IntVal(3)), EH(e.f['address'].t), e.f['topics'].tag, e.f['data'].tag), True))
def u_recenc(u):
    v, st, persist = receipt(u); s = stream(u); ev = rd(u.I, s).f['ev']; r = v.f['m_strRevertReason']; five = And(persist, r.n > 0); log = v.f['m_log']; w = rd(u.I, s).f['ev'].n
    heads = [EL(z3.If(five, z3.IntVal(5), z3.IntVal(4))), item(u.I, st), EI(v.f['m_gasUsed'].t), EH(v.f['m_bloom'].t), EL(log.n)]; base = after(ev, *heads); n0 = base.n
    def upto(k): return SeqV(n0 + k, lambda i: TermV(z3.If(i < n0, base.get(i).t, encof(ent(i - n0))), 'ev'), None, 'vec')
    loop(u, 'dev::eth::TransactionReceipt::streamRLP', LoopSpec(state=lambda I, env, k: [(Loc(env('_s').cell, env('_s').path + (('f', 'ev'),)), upto(k))], name='logs'))
    u.call('dev::eth::TransactionReceipt::streamRLP', [u.I.new(v, 'receipt'), s]); u.cover('returns'); got = rd(u.I, s).f['ev']; full = upto(log.n)
    u.prove('with a revert reason the receipt has it as its fifth item', Imp(five, u.I.veq(got, after(full, r.tag), True))); u.prove('otherwise the receipt is status or root, gas used, bloom and logs', Imp(Not(five), u.I.veq(got, full, True)))
def u_kind(u):
    v, st, persist = receipt(u); l = u.I.new(v, 'receipt'); Q = 'dev::eth::TransactionReceipt::'; code = isinstance(st, IntV); u.cover('returns')
    u.prove('tells whether it has a status code', B(u.call(Q + 'hasStatusCode', [l])) == z3.BoolVal(code))
    x, r = u.throws(u.call, Q + 'statusCode', [l]); u.prove('a status code is given exactly when there is one', z3.BoolVal((x is None) == code)); 
    if x is None: u.prove('the status code itself', u.I.veq(u.I.val(r), st))
    x, r = u.throws(u.call, Q + 'stateRoot', [l]); u.prove('a state root is given exactly when there is one', z3.BoolVal((x is None) != code))
    if x is None: u.prove('the state root itself', u.I.veq(u.I.val(r), st))
# ---------------------------------------------------------------- decoding: an RLP item is ('list', n, get) | ('int', t) | ('hash', t, bytes) | ('str', seq)
def nd(I, x):
    v = rd(I, x)
    if isinstance(v, RecV) and v.qn in ('dev::RLP', 'dev::vector_ref') and 'node' in v.f: return v.f['node'].data
    raise Unsupported('not an RLP item: %r' % (v,))
def R(*n): return RecV('dev::RLP', {'node': OpaqueV('rlpnode', n)})
def nbytes(t): # canonical length of a number below 2^256
    r = z3.IntVal(32)
    for k in range(31, -1, -1): r = z3.If(t < (1 << (8 * k)), k, r)
    return r
def isint(n): return n[0] == 'int'
def c_size(I, e, fr, a):
    n = nd(I, a[0])
    if n[0] == 'int': return IntV(nbytes(n[1]), 64, False)
    if n[0] == 'hash': return IntV(n[2], 64, False)
    if n[0] == 'str': return IntV(n[1].n, 64, False)
    raise Unsupported('size of a list item')
def c_at(I, e, fr, a):
    n = nd(I, a[0]); i = rd(I, a[1]).t
    if n[0] != 'list': raise CxxThrow('dev::BadCast')
    if isc(i) and isc(n[1]) and not 0 <= i < n[1]: return R('none')
    return n[2](i)
def want(I, e, n, t):
    """conversion of item n to type t"""
    iv = I.as_bigint(t)
    if t['k'] == 'int' or iv is not None:
        if n[0] != 'int': raise CxxThrow('dev::BadCast')
        w, s = iv if iv is not None else (t['w'], t.get('s', False)); lim = 256 if iv is not None else t['w']
        if not I.p.branch(n[1] < (1 << lim)): raise CxxThrow('dev::BadCast')
        return IntV(n[1], lim, False)
    if t['k'] == 'rec' and t['qn'] == 'dev::FixedHash':
        if n[0] != 'hash' or n[2] != int(t['args'][0]['v']): raise CxxThrow('dev::BadCast')
        return TermV(n[1], 'hash20')
    if n[0] in ('str', 'hashes'): return n[1]
    raise Unsupported('conversion of an RLP %s' % n[0])
def c_conv(I, e, fr, a): return want(I, e, nd(I, a[0]), I._strip(e['t']))
def c_pred(f): return lambda I, e, fr, a: f(nd(I, a[0]))
def IT(l, i): return RecV('dev::RLP::iterator', {'l': l, 'i': IntV(i, 64, False)})
def c_begin(I, e, fr, a): return IT(a[0] if isinstance(a[0], Loc) else I.new(a[0]), 0)
def c_end(I, e, fr, a): return IT(a[0] if isinstance(a[0], Loc) else I.new(a[0]), nd(I, a[0])[1])
def c_inc(I, e, fr, a): v = rd(I, a[0]); I.write(a[0].f('i'), IntV(I.tadd(v.f['i'].t, 1), 64, False)); return a[0]
def c_it(I, e, fr, a): v = rd(I, a[0]); return nd(I, v.f['l'])[2](v.f['i'].t)
def c_ne(I, e, fr, a): return lnot(I.teq(rd(I, a[0]).f['i'].t, rd(I, a[1]).f['i'].t))
def c_rctor(I, e, fr, a): nd(I, a[0]); return RecV('dev::RLP', {'node': rd(I, a[0]).f['node']})
RC = {'dev::RLP::(ctor)': c_rctor, 'dev::RLP::isList': c_pred(lambda n: n[0] in ('list', 'hashes')), 'dev::RLP::isData': c_pred(lambda n: n[0] in ('int', 'hash', 'str')), 'dev::RLP::isInt': c_pred(isint), 'dev::RLP::size': c_size, 'dev::RLP::operator[]': c_at, 'dev::RLP::(conv)': c_conv, 'dev::RLP::toInt': c_conv, 'dev::RLP::toHash': c_conv, 'dev::RLP::toVector': c_conv, 'dev::RLP::toArray': c_conv, 'dev::RLP::toBytes': c_conv, 'dev::RLP::toString': c_conv,
      'dev::RLP::itemCount': c_pred(lambda n: IntV(n[1] if n[0] == 'list' else 0, 64, False)), 'dev::RLP::actualSize': lambda I, e, fr, a: IntV(z3.Int('actualSize'), 64, False), 'dev::RLP::data': lambda I, e, fr, a: RecV('dev::vector_ref', {'m_data': NULL, 'm_count': IntV(z3.Int('dataSize'), 64, False), 'node': rd(I, a[0]).f['node']}),
      'dev::RLP::begin': c_begin, 'dev::RLP::end': c_end, 'dev::RLP::iterator::operator++': c_inc, 'dev::RLP::iterator::operator*': c_it, 'dev::RLP::iterator::operator!=': c_ne}
def lst(*xs): return R('list', len(xs), lambda i: xs[i])
def enode(v): return lst(R('hash', v.f['address'].t, 20), R('hashes', v.f['topics']), R('str', v.f['data']))
def u_logdec(u):
    e = entry(u); r = u.I.val(u.construct('dev::eth::LogEntry::(ctor)', [enode(e)], lambda I, f: len(f['params']) == 1 and 'RLP' in I.T[f['params'][0]['t']].get('s', ''))); u.cover('returns')
    u.prove('address', u.I.veq(r.f['address'], e.f['address'])); u.prove('topics', sameseq(u, r.f['topics'], e.f['topics'])); u.prove('data', sameseq(u, r.f['data'], e.f['data']))
def hsize(u): return lambda I, e, fr, a: c_size(I, e, fr, a)
def u_recdec(u):
    v, st, persist = receipt(u); log = v.f['m_log']; r = v.f['m_strRevertReason']; five = u.p.choose(2)
    if five: u.assume(And(persist, r.n > 0))
    else: u.assume(Or(Not(persist), r.n == 0))
    items = [R('int', st.t) if isinstance(st, IntV) else R('hash', st.t, 32), R('int', v.f['m_gasUsed'].t), R('hash', v.f['m_bloom'].t, 256), R('list', log.n, lambda k: enode(ent(k)))] + ([R('str', r)] if five else [])
    def state(I, env, k): return [(Loc(env.this.cell, env.this.path + (('f', 'm_log'),)) if isinstance(env.this, Loc) else Loc(env.this.loc.cell, env.this.loc.path + (('f', 'm_log'),)), SeqV(k if not isc(k) else k, ent, None, 'vec'))]
    loop(u, 'dev::eth::TransactionReceipt::(ctor)', LoopSpec(state=state, name='logs'))
    x, g = u.throws(u.construct, 'dev::eth::TransactionReceipt::(ctor)', [lst(*items)], lambda I, f: len(f['params']) == 1 and 'vector_ref' in I.T[f['params'][0]['t']].get('s', '')); u.prove('a stored receipt is accepted', x is None); 
    if x is not None: return
    u.cover('returns'); g = u.I.val(g); w = g.f['m_statusCodeOrStateRoot']
    u.prove('a status code stays distinguishable from a state root', z3.BoolVal(w.f['which'] == (0 if isinstance(st, IntV) else 1))); u.prove('status code or state root', u.I.veq(w.f['v'], st) if w.f['which'] == (0 if isinstance(st, IntV) else 1) else z3.BoolVal(False))
    u.prove('gas used', u.I.veq(g.f['m_gasUsed'], v.f['m_gasUsed'])); u.prove('bloom', u.I.veq(g.f['m_bloom'], v.f['m_bloom'])); L = g.f['m_log']; u.prove('number of logs', (L.n if not isc(L.n) else z3.IntVal(L.n)) == log.n)
    k = z3.Int('someLog'); y = L.get(k); z = ent(k); inr = And(0 <= k, k < log.n)
    u.prove('every log entry', Imp(inr, And(y.f['address'].t == z.f['address'].t, y.f['topics'].tag == z.f['topics'].tag, y.f['data'].tag == z.f['data'].tag)))
    rr = g.f['m_strRevertReason']
    if five: u.prove('revert reason', sameseq(u, rr, r))
    else: u.prove('no revert reason', (rr.n if not isc(rr.n) else z3.IntVal(rr.n)) == 0)
def u_recbad(u):
    persist = z3.Bool('persist'); u.I.cfg['globals'] = {PERSIST: lambda I, gd: persist}; c = u.p.choose(3)
    ok4 = [R('int', int_in(u, 'status', 8).t), R('int', int_in(u, 'gasUsed', 256).t), R('hash', term(u, 'bloom'), 256), R('list', 0, None)]
    if c == 0: n = z3.Int('items'); u.p.inputs['items'] = lambda m: str(m.eval(n, True)); u.assume(n >= 0); u.assume(Or(n < 4, n > 5, And(n == 5, Not(persist)))); top = R('list', n, lambda i: ok4[i] if isc(i) and i < 4 else R('str', tagged(u, 'x', EB)))
    elif c == 1: top = lst(lst(), *ok4[1:])
    else: top = R('str', tagged(u, 'x', EB))
    x, g = u.throws(u.construct, 'dev::eth::TransactionReceipt::(ctor)', [top], lambda I, f: len(f['params']) == 1 and 'vector_ref' in I.T[f['params'][0]['t']].get('s', '')); u.cover('case %d' % c); u.prove('an item that is no receipt is rejected', z3.BoolVal(x is not None))
def rec(u, qn, **f):
    rt = next(t for t in u.T if t['k'] == 'rec' and t['qn'] == qn and 'rec' in t); d = {}
    for fd in u.I.all_fields(rt): d[fd['n']] = f[fd['n']] if fd['n'] in f else OpaqueV('counter') if fd['n'] == 'c' else int_in(u, fd['n'], 32)
    return RecV(qn, d)
def one(s): return lambda I, f: len(f['params']) == 1 and s in I.T[f['params'][0]['t']].get('s', '')
def u_details(u):
    Q = 'dev::eth::BlockDetails'; v = rec(u, Q, number=int_in(u, 'number', 32), totalDifficulty=int_in(u, 'difficulty', 256), parent=TermV(term(u, 'parent'), 'hash20'), children=tagged(u, 'children', EV_), blockSizeBytes=int_in(u, 'blockSize', 64)); u.assume(v.f['blockSizeBytes'].t < 1 << 32); f = v.f
    r = u.I.val(u.call(Q + '::rlp', [u.I.new(v, 'details')])); u.cover('encoded'); u.prove('the five fields in order', u.I.veq(r, lits([TermV(t, 'ev') for t in [EL(z3.IntVal(5)), EI(f['number'].t), EI(f['totalDifficulty'].t), EH(f['parent'].t), f['children'].tag, EI(f['blockSizeBytes'].t)]]), True))
    g = u.I.val(u.construct(Q + '::(ctor)', [lst(R('int', f['number'].t), R('int', f['totalDifficulty'].t), R('hash', f['parent'].t, 32), R('hashes', f['children']), R('int', f['blockSizeBytes'].t))], one('RLP'))); u.cover('decoded')
    for n in ('number', 'totalDifficulty', 'parent', 'blockSizeBytes'): u.prove('decoded ' + n, u.I.veq(g.f[n], f[n]))
    u.prove('decoded children', sameseq(u, g.f['children'], f['children'])); l = u.I.new(v, 'd'); u.prove('null exactly for the invalid number', B(u.call(Q + '::isNull', [l])) == (f['number'].t == (1 << 32) - 1))
def u_address(u):
    Q = 'dev::eth::TransactionAddress'; v = rec(u, Q, blockHash=TermV(term(u, 'blockHash'), 'hash20'), index=int_in(u, 'index', 32)); f = v.f; r = u.I.val(u.call(Q + '::rlp', [u.I.new(v)])); u.cover('encoded'); u.prove('block hash and index', u.I.veq(r, lits([TermV(t, 'ev') for t in [EL(z3.IntVal(2)), EH(f['blockHash'].t), EI(f['index'].t)]]), True))
    g = u.I.val(u.construct(Q + '::(ctor)', [lst(R('hash', f['blockHash'].t, 32), R('int', f['index'].t))], one('RLP'))); u.prove('decoded', And(B(u.I.veq(g.f['blockHash'], f['blockHash'])), B(u.I.veq(g.f['index'], f['index']))))
def u_hash(u):
    Q = 'dev::eth::BlockHash'; v = rec(u, Q, value=TermV(term(u, 'value'), 'hash20')); r = u.I.val(u.call(Q + '::rlp', [u.I.new(v)])); u.cover('encoded'); u.prove('the hash', u.I.veq(r, lits([TermV(EH(v.f['value'].t), 'ev')]), True)); g = u.I.val(u.construct(Q + '::(ctor)', [R('hash', v.f['value'].t, 32)], one('RLP'))); u.prove('decoded', u.I.veq(g.f['value'], v.f['value']))
def u_blooms(u):
    for Q in ('dev::eth::BlockLogBlooms', 'dev::eth::BlocksBlooms'):
        s = tagged(u, 'blooms', EV_); v = rec(u, Q, blooms=s); r = u.I.val(u.call(Q + '::rlp', [u.I.new(v)])); u.cover('encoded'); u.prove('the blooms', u.I.veq(r, lits([TermV(s.tag, 'ev')]), True)); n = R('hashes', s); g = u.I.val(u.construct(Q + '::(ctor)', [n], one('RLP'))); u.prove('decoded', sameseq(u, g.f['blooms'], s))
RENC = z3.Function('encodingOfReceipt', INT, INT)
def u_receipts(u):
    Q = 'dev::eth::BlockReceipts'; n = z3.Int('len_receipts'); u.assume(n >= 0); u.assume(n < 1 << 40); w = u.p.choose(2); rc = lambda k: RecV('dev::eth::TransactionReceipt', {'id': TermV(k if not isc(k) else z3.IntVal(k), 'hash20')}); s = SeqV(n, rc, None, 'vec')
    if w == 0:
        u.I.contracts['dev::eth::TransactionReceipt::streamRLP'] = lambda I, e, fr, a: push(I, a[1], RENC(rd(I, a[0]).f['id'].t)); v = rec(u, Q, receipts=s)
        def st(k): return SeqV(1 + k, lambda i: TermV(z3.If(i == 0, EL(n), RENC(i - 1)), 'ev'), None, 'vec')
        loop(u, Q + '::rlp', LoopSpec(state=lambda I, env, k: [(Loc(env('s').cell, env('s').path + (('f', 'ev'),)), st(k))], name='receipts')); r = u.I.val(u.call(Q + '::rlp', [u.I.new(v)])); u.cover('encoded'); u.prove('the list of the encoded receipts', u.I.veq(r, st(n), True))
    else:
        u.I.contracts['dev::eth::TransactionReceipt::(ctor)'] = lambda I, e, fr, a: rc(nd(I, a[0])[1])
        def state(I, env, k): t = env.this if isinstance(env.this, Loc) else env.this.loc; return [(Loc(t.cell, t.path + (('f', 'receipts'),)), SeqV(k, rc, None, 'vec'))]
        loop(u, Q + '::(ctor)', LoopSpec(state=state, name='receipts')); g = u.I.val(u.construct(Q + '::(ctor)', [R('list', n, lambda k: R('receipt', k if not isc(k) else z3.IntVal(k)))], one('RLP'))); u.cover('decoded'); r = g.f['receipts']; k = z3.Int('some'); u.prove('as many receipts', (r.n if not isc(r.n) else z3.IntVal(r.n)) == n); u.prove('each receipt in its place', Imp(And(0 <= k, k < n), r.get(k).f['id'].t == k))
ALL = {'boost::multiprecision::literals::operator""_cppui256': lambda I, e, fr, a: I.fresh_int('literal', 256, False), **SC, **RC, **VC}; NOFH = {'dev::FixedHash::(ctor)': lambda I, e, fr, a: rd(I, a[0]) if a else TermV(z3.Int('emptyHash'), 'hash20'), 'dev::FixedHash::operator=': lambda I, e, fr, a: (I.write(a[0], rd(I, a[1])), a[0])[1]}
def unit(n, f, **c): return dict(S, name='receipt.' + n, body=f, cfg={'contracts': {**ALL, **NOFH, **c}})
UNITS = [unit('logEncode', u_logenc), unit('encode', u_recenc, **{'dev::eth::LogEntry::streamRLP': c_logstream}), unit('kind', u_kind), unit('logDecode', u_logdec), unit('decode', u_recdec), unit('malformed', u_recbad), unit('details', u_details), unit('address', u_address), unit('hash', u_hash), unit('blooms', u_blooms), unit('receipts', u_receipts)]
if __name__ == '__main__': main(UNITS)
