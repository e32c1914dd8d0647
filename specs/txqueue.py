"""the transaction queue (C16): order of what is handed out, one transaction per sender and nonce, counts and limits"""
from common import *
import econt
from econt import SegV, EV, EIterV, pair
from rangemask import ftype
from evalx import _RefV
SRC = os.path.join(VERIF, 'tu/txqueue.cpp'); WANT = ['dev::eth::TransactionQueue::*']
And, Or, Not = z3.And, z3.Or, z3.Not
T = 'dev::eth::Transaction'; TB = 'dev::eth::TransactionBase'; Q = 'dev::eth::TransactionQueue'; VT = Q + '::VerifiedTransaction'; PC = Q + '::PriorityCompare'
CFG = {'emap': True, 'evec': {'boost::container::node_handle', T}, 'unroll': 12}
S = dict(src=SRC, want=WANT, mode='int', cfg=CFG)
def term(u, nm, kind='hash20'): c = z3.Int(nm); u.p.inputs[nm] = lambda m: str(m.eval(c, True)); u.assume(c >= 0); return TermV(c, kind)
class W: pass
def tx(u, nm, sender=None):
    """an arbitrary transaction, seen by its sender, nonce, price, size and hash"""
    return RecV(T, {'from': sender or term(u, nm + '.from'), 'nonce': int_in(u, nm + '.nonce', 256), 'price': int_in(u, nm + '.gasPrice', 256), 'size': siz(u, nm), 'hash': term(u, nm + '.hash', 'hash32'), 'ok': True})
def siz(u, nm): v = int_in(u, nm + '.size', 64); u.assume(And(v.t >= 1, v.t < 1 << 24)); return v
def null(): return RecV(T, {'from': TermV(z3.IntVal(0), 'hash20'), 'nonce': IntV(0, 256, False), 'price': IntV(0, 256, False), 'size': IntV(0, 64, False), 'hash': TermV(z3.IntVal(0), 'hash32'), 'ok': False})
def vtx(t, cat): return RecV(VT, {'transaction': t, 'category': cat, 'c': OpaqueV('counter')})
def world(u):
    I = u.I; w = W(); w.u = u; f = lambda n: (lambda I, e, fr, a: I.val(a[0]).f[n])
    w.zero = z3.Bool('zero signature'); w.ready = 0; w.ins = []; w.dropped = z3.Function('was dropped', z3.IntSort(), z3.BoolSort())
    def ctor(I, e, fr, a):
        if not a: return null()
        v = I.val(a[0])
        if isinstance(v, RecV) and v.qn == T: return v
        raise Unsupported('transaction from %r' % (v,))
    def tobytes(I, e, fr, a): return I.new(I.fresh_seq('tx bytes', 8, False, n=I.val(a[0]).f['size'].t))
    def on(I, e, fr, a): w.ready += 1; return OpaqueV('void')
    def sort(I, e, fr, a):
        i = I.val(a[0]); cmp = I.val(a[2]); ks = [k for k in I.tu.byqn[PC + '::operator()']]
        mk = lambda t: I.new(vtx(t, IntV(0, 32, True)) if t.qn == T else t)
        econt.stable_sort(I, i.loc, lambda x, y: I.val(I.call_fn({'key': ks[0], 'qn': PC + '::operator()'}, [I.new(cmp), mk(x), mk(y)]))); return None
    con = {TB + '::from': f('from'), TB + '::sender': f('from'), TB + '::safeSender': f('from'), TB + '::nonce': f('nonce'), T + '::gasPrice': f('price'), TB + '::gasPrice': f('price'), TB + '::sha3': f('hash'), TB + '::toBytes': tobytes, TB + '::(conv)': f('ok'), TB + '::operator bool': f('ok'),
           T + '::(ctor)': ctor, TB + '::isInvalid': lambda I, e, fr, a: lnot(I.val(a[0]).f['ok']), TB + '::hasZeroSignature': lambda I, e, fr, a: w.zero, 'dev::eth::Counter::(ctor)': lambda I, e, fr, a: OpaqueV('counter'), 'dev::eth::Signal::operator()': on,
           'dev::LruCache::touch': lambda I, e, fr, a: w.dropped(I.val(a[1]).t), 'dev::LruCache::insert': lambda I, e, fr, a: w.ins.append(I.val(a[1]).t), 'dev::LruCache::clear': lambda I, e, fr, a: OpaqueV('void'), 'dev::LruCache::size': lambda I, e, fr, a: int_in(u, 'dropped', 64), 'std::stable_sort': sort, 'dev::toString': lambda I, e, fr, a: OpaqueV('string'),
           'boost::diagnostic_information': lambda I, e, fr, a: OpaqueV('string')}
    u.I.contracts = hashcon(con); return w
def sub(loc, f): return Loc(loc.cell, loc.path + (('f', f),))
def queue(u, w, cur, fut, sizes=None):
    """a queue with the given ready transactions (in the order of the queue: (tx, category)) and future ones"""
    I = u.I; g = lambda n: ftype(u, Q, n); lim = lambda n: int_in(u, n, 32)
    loc = I.new(RecV(Q, {}), 'queue'); w.q = loc; lc = sub(loc, 'm_current')
    c = EV('multiset', [(econt.neweid(I), vtx(t, k)) for t, k in cur], g('m_current'), RecV(PC, {'queue': _RefV(loc)}))
    byh = econt.make(I, g('m_currentByHash'), [pair(t.f['hash'], EIterV(lc, eid)) for (t, _), (eid, _) in zip(cur, c.ents)])
    it = g('m_currentByAddressAndNonce'); ft = g('m_future')
    def nested(mt, items, val):
        out = []; order = []
        for t, x in items:
            k = t.f['from'].t.get_id()
            if k not in order: order.append(k)
        for k in order:
            mine = [(t, x) for t, x in items if t.f['from'].t.get_id() == k]; mine.sort(key=lambda z: z[0].rank)
            out.append(pair(mine[0][0].f['from'], econt.make(I, I.T[mt['args'][1]['t']], [pair(t.f['nonce'], val(t, x)) for t, x in mine])))
        return econt.make(I, mt, out)
    f = {'m_current': c, 'm_currentByHash': byh, 'm_currentByAddressAndNonce': nested(it, [(t, eid) for (t, _), (eid, _) in zip(cur, c.ents)], lambda t, eid: EIterV(lc, eid)), 'm_future': nested(ft, [(t, 0) for t in fut], lambda t, _: vtx(t, IntV(0, 32, True))),
         'm_known': econt.make(I, g('m_known'), [t.f['hash'] for t, _ in cur] + [t.f['hash'] for t in fut]), 'm_dropped': OpaqueV('dropped'), 'm_lock': OpaqueV('lock'), 'x_queue': OpaqueV('mutex'), 'm_onReady': OpaqueV('signal'), 'm_loggerDetail': OpaqueV('log'), 'm_logger': OpaqueV('log'), 'm_limit': lim('limit'), 'm_futureLimit': lim('future limit'), 'm_currentSizeBytesLimit': lim('byte limit'), 'm_futureSizeBytesLimit': lim('future byte limit'),
         'm_futureSize': IntV(len(fut), 32, False), 'm_currentSizeBytes': IntV(total([t for t, _ in cur]), 32, False), 'm_futureSizeBytes': IntV(total(fut), 32, False)}
    I.write(loc, RecV(Q, f))
    al = [t for t, _ in cur] + list(fut)
    for i, a in enumerate(al):
        for b in al[:i]:
            u.assume(a.f['hash'].t != b.f['hash'].t)
            if a.f['from'] is b.f['from']: u.assume(a.f['nonce'].t > b.f['nonce'].t if a.rank > b.rank else a.f['nonce'].t < b.f['nonce'].t)
            else: u.assume(a.f['from'].t != b.f['from'].t)
    low = lambda t: min((x for x, _ in cur if x.f['from'] is t.f['from']), key=lambda x: x.rank).f['nonce'].t
    for (t, k), (t2, k2) in zip(cur, cur[1:]): u.assume(Not(before(t2, k2.t, low(t2), t, k.t, low(t))))
    return loc
def total(ts): return sum([t.f['size'].t for t in ts], z3.IntVal(0)) if ts else 0
def before(a, ka, la, b, kb, lb):
    """the order of the queue: higher category first, then closer to the sender's lowest nonce, then the higher price"""
    ha, hb = a.f['nonce'].t - la, b.f['nonce'].t - lb
    return Or(ka > kb, And(ka == kb, Or(ha < hb, And(ha == hb, a.f['price'].t > b.f['price'].t))))
def shape(u, w, cur, fut, cats=True):
    """cur: the senders of the ready transactions in queue order, fut: those of the future ones; ranks (nonce order) per sender are every possible one"""
    import itertools
    snd = {s: term(u, 'address ' + s) for s in sorted(set(cur) | set(fut) | {'A', 'B'})}
    def mk(i, s, what): return tx(u, '%s%d' % (what, i), snd[s])
    c = [(mk(i, s, 'ready'), int_in(u, 'ready%d.category' % i, 32, True)) for i, s in enumerate(cur)]; f = [mk(i, s, 'future') for i, s in enumerate(fut)]
    for s in snd:
        mine = [t for t, _ in c if t.f['from'] is snd[s]] + [t for t in f if t.f['from'] is snd[s]]
        ps = list(itertools.permutations(range(len(mine)))); p = ps[u.p.choose(len(ps))] if len(ps) > 1 else ps[0]
        for t, r in zip(mine, p): t.rank = r
    for a, b in itertools.combinations(snd.values(), 2): u.assume(a.t != b.t)
    w.snd = snd; w.cur = c; w.fut = f; queue(u, w, c, f); return w
class Snap: pass
def read(u, w):
    s = Snap(); v = u.I.read(w.q); s.v = v; n = lambda x: v.f[x].t
    s.cur = [(eid, p) for eid, p in v.f['m_current'].ents]; s.byh = [(p.f['first'], p.f['second'].eid) for _, p in v.f['m_currentByHash'].ents]
    s.by = [(p.f['first'], [(q.f['first'], q.f['second'].eid) for _, q in p.f['second'].ents]) for _, p in v.f['m_currentByAddressAndNonce'].ents]
    s.fut = [(p.f['first'], [(q.f['first'], q.f['second'].f['transaction']) for _, q in p.f['second'].ents]) for _, p in v.f['m_future'].ents]
    s.futs = [t for _, l in s.fut for _, t in l]; s.known = [p for _, p in v.f['m_known'].ents]; s.n = n; s.txs = [p.f['transaction'] for _, p in s.cur]; return s
def same(a, b): return a.f['hash'].t.eq(b.f['hash'].t)
def has(l, t): return any(same(x, t) for x in l)
def inv(u, w):
    """what the containers of the queue say agrees, and the order is that of the comparison"""
    s = read(u, w); P = u.prove; cur = dict(s.cur)
    P('every ready transaction is found by its hash, once', len(s.byh) == len(s.cur) and sorted(e or 0 for _, e in s.byh) == sorted(cur) and (And(*[h.t == cur[e].f['transaction'].f['hash'].t for h, e in s.byh]) if s.byh and all(e in cur for _, e in s.byh) else True))
    hs = [e for _, l in s.by for _, e in l]
    P('every ready transaction is found by its sender and nonce, once', len(hs) == len(s.cur) and sorted(e or 0 for e in hs) == sorted(cur) and all(l for _, l in s.by))
    ok = all(e in cur for e in hs)
    if ok:
        P('under its own sender and nonce', And(*[And(a.t == cur[e].f['transaction'].f['from'].t, k.t == cur[e].f['transaction'].f['nonce'].t) for a, l in s.by for k, e in l]) if hs else True)
        low = {e: l[0][0].t for _, l in s.by for _, e in l}
        for (e1, p1), (e2, p2) in zip(s.cur, s.cur[1:]): P('ready transactions are in the order of category, nonce height and price', Not(before(p2.f['transaction'], p2.f['category'].t, low[e2], p1.f['transaction'], p1.f['category'].t, low[e1])))
    P('nonces of a sender increase in its index', And(*[l[i][0].t < l[i + 1][0].t for _, l in s.by for i in range(len(l) - 1)] or [z3.BoolVal(True)]))
    P('future transactions are kept under their sender and nonce', all(l for _, l in s.fut) and And(*[And(a.t == t.f['from'].t, k.t == t.f['nonce'].t) for a, l in s.fut for k, t in l] or [z3.BoolVal(True)]))
    for what, m in (('ready', s.by), ('future', s.fut)): P('one entry per sender (%s)' % what, And(*[m[i][0].t != m[j][0].t for i in range(len(m)) for j in range(i)] or [z3.BoolVal(True)]))
    al = s.txs + s.futs
    P('at most one transaction per sender and nonce', And(*[Or(a.f['from'].t != b.f['from'].t, a.f['nonce'].t != b.f['nonce'].t) for i, a in enumerate(al) for b in al[:i]] or [z3.BoolVal(True)]))
    P('the known hashes are those of the ready and future transactions', len(s.known) == len(al) and all(any(k.t.eq(t.f['hash'].t) for k in s.known) for t in al))
    P('number of future transactions', s.n('m_futureSize') == len(s.futs)); P('bytes of ready transactions', s.n('m_currentSizeBytes') == total(s.txs)); P('bytes of future transactions', s.n('m_futureSizeBytes') == total(s.futs))
    return s
# ---- the order
def u_compare(u):
    w = world(u); I = u.I; g = lambda n: ftype(u, Q, n); it = g('m_currentByAddressAndNonce'); n = 3
    ts = [tx(u, 'tx%d' % i) for i in range(n)]; cs = [int_in(u, 'category%d' % i, 32, True) for i in range(n)]
    lowest = z3.Function('lowest ready nonce', z3.IntSort(), z3.IntSort()); none = SegV('none', z3.IntVal(0), lambda k: False)
    def mkat(I, k): x = I.fresh_int('more', 64, False).t; m = econt.make(I, I.T[it['args'][1]['t']], [pair(IntV(lowest(k.t), 256, False), EIterV(None, None)), SegV('higher nonces', x, lambda q: z3.BoolVal(False))]); return pair(k, m)
    senders = econt.make(I, it, [SegV('senders', z3.Int('number of senders'), lambda k: z3.BoolVal(True), None, mkat)])
    for t in ts: u.assume(And(lowest(t.f['from'].t) >= 0, lowest(t.f['from'].t) <= t.f['nonce'].t))
    loc = I.new(RecV(Q, {'m_currentByAddressAndNonce': senders}), 'queue'); cmp = I.new(RecV(PC, {'queue': _RefV(loc)})); v = [I.new(vtx(t, c)) for t, c in zip(ts, cs)]
    less = lambda i, j: B(u.call(PC + '::operator()', [cmp, v[i], v[j]])); u.cover('compares')
    spec = lambda i, j: before(ts[i], cs[i].t, lowest(ts[i].f['from'].t), ts[j], cs[j].t, lowest(ts[j].f['from'].t))
    u.prove('the order: category, then nonce height, then price', less(0, 1) == spec(0, 1)); u.prove('irreflexive', Not(spec(0, 0))); u.prove('asymmetric', Not(And(spec(0, 1), spec(1, 0)))); u.prove('transitive', Imp(And(spec(0, 1), spec(1, 2)), spec(0, 2)))
    inc = lambda i, j: And(Not(spec(i, j)), Not(spec(j, i))); u.prove('equivalence is transitive', Imp(And(inc(0, 1), inc(1, 2)), inc(0, 2)))
    u.prove('within a sender and category by nonce', Imp(And(ts[0].f['from'].t == ts[1].f['from'].t, cs[0].t == cs[1].t, ts[0].f['nonce'].t < ts[1].f['nonce'].t), spec(0, 1)))
# ---- the operations, on queues with up to three transactions of two senders (nonces, prices, categories, sizes and ranks arbitrary)
def fits(u, s):
    n = s.n; u.prove('the number of ready transactions is within the limit', len(s.cur) <= n('m_limit')); u.prove('the bytes of the ready transactions are within the limit', total(s.txs) <= n('m_currentSizeBytesLimit'))
def within(u, w):
    s = read(u, w); n = s.n; u.assume(And(len(s.cur) <= n('m_limit'), total(s.txs) <= n('m_currentSizeBytesLimit'), len(s.futs) <= n('m_futureLimit'), total(s.futs) <= n('m_futureSizeBytesLimit')))
def pick(u, w, t, others=()):
    """the transaction given belongs to one of the senders of the queue, or to another; it differs from all others of the queue in its hash, or is one of them"""
    k = u.p.choose(3) if not others else others[u.p.choose(len(others))]
    if k < 2: t.f['from'] = w.snd['AB'[k]]
    else:
        for a in w.snd.values(): u.assume(t.f['from'].t != a.t)
    return k
def sameid(a, b): return And(a.f['from'].t == b.f['from'].t, a.f['nonce'].t == b.f['nonce'].t)
def consistent(u, t, ts):
    """equal hashes mean equal transactions"""
    for x in ts: u.assume(Imp(x.f['hash'].t == t.f['hash'].t, And(sameid(x, t), x.f['price'].t == t.f['price'].t, x.f['size'].t == t.f['size'].t)))
RES = lambda u, n: next(c['v'] for e in u.I.tu.enums.values() if e.get('qn', e.get('n', '')).endswith('ImportResult') for c in e['c'] if c['n'] == n)
def u_import(cur, fut, who, future):
    def f(u):
        w = world(u); shape(u, w, cur, fut); s0 = read(u, w); t = tx(u, 'given'); pick(u, w, t, who); al = s0.txs + s0.futs; consistent(u, t, al); known = [t2 for t2 in al]
        u.assume(t.f['nonce'].t < (1 << 256) - 4)
        ik = int_in(u, 'if dropped', 32, True); u.assume(Or(ik.t == 0, ik.t == 1)); within(u, w)
        r = u.call(Q + '::import', [w.q, u.I.new(t), ik, z3.BoolVal(future)], lambda I, fn: I._strip(fn['params'][0]['t']).get('qn') == T).t; u.cover('returns'); s = inv(u, w)
        pushed = [x for x in s0.futs if not has(s.futs + s.txs, x) and u.p.holds(sameid(x, t))]
        R = lambda n: RES(u, n); inq = lambda l: Or(*[x.f['hash'].t == t.f['hash'].t for x in l]) if l else z3.BoolVal(False)
        rest = s0.txs + [x for x in s0.futs]
        occ = Or(*[sameid(x, t) for x in s0.txs]) if s0.txs else z3.BoolVal(False)
        stay = [x for x in s0.futs]; wasf = Or(*[sameid(x, t) for x in stay]) if stay else z3.BoolVal(False)
        kn = inq(s0.txs)      # a future one with this sender and nonce gave way first
        dr = And(w.dropped(t.f['hash'].t), ik.t == 0)
        want = If(w.zero, R('ZeroSignature'), If(kn, R('AlreadyKnown'), If(dr, R('AlreadyInChain'), If(occ, R('SameNonceAlreadyInQueue'), R('Success'))))); u.prove('the result', r == want)
        ok = u.p.holds(r == R('Success'))
        if not ok:
            u.prove('refused: the ready transactions are as before', len(s.cur) == len(s0.cur) and all(a[0] == b[0] and same(a[1].f['transaction'], b[1].f['transaction']) for a, b in zip(s.cur, s0.cur)))
            for x in s0.futs: u.prove('refused: a future transaction stays, unless it has this sender and nonce', Or(z3.BoolVal(has(s.futs, x)), And(Not(w.zero), sameid(x, t))))
            return
        u.prove('accepted: listeners are told', w.ready >= 1); fits(u, s); u.prove('limit of future transactions', Or(z3.BoolVal(not future), And(len(s.futs) <= s.n('m_futureLimit'), total(s.futs) <= s.n('m_futureSizeBytesLimit'))))
        u.prove('nothing else comes in', all(has(al + [t], x) for x in s.txs + s.futs))
        room = And(len(al) + 1 <= s.n('m_limit'), total(al + [t]) <= s.n('m_currentSizeBytesLimit'), len(al) + 1 <= s.n('m_futureLimit'), total(al + [t]) <= s.n('m_futureSizeBytesLimit'))
        u.prove('with room left, it is in', Imp(room, z3.BoolVal(has(s.futs if future else s.txs, t))))
        for x in al: u.prove('with room left, the others stay, unless one was future with this sender and nonce', Imp(room, Or(z3.BoolVal(has(s.txs + s.futs, x)), And(z3.BoolVal(has(s0.futs, x)), sameid(x, t)))))
        if not future: 
            # a future transaction becomes ready exactly when its predecessors (from the given one on) are there
            fs = [x for x in s0.futs]
            for x in fs:
                d = x.f['nonce'].t - t.f['nonce'].t; mine = x.f['from'].t == t.f['from'].t
                chain = And(mine, Or(*[And(d == k + 1, *[Or(*[And(y.f['from'].t == t.f['from'].t, y.f['nonce'].t == t.f['nonce'].t + j) for y in fs]) for j in range(1, k + 1)]) for k in range(len(fs))]))
                if has(s.txs, x): u.prove('a future transaction becomes ready only behind its predecessor', chain)
                elif has(s.futs, x): u.prove('a future transaction whose predecessor came in becomes ready', Not(chain))
        else:
            for x in s0.txs: u.prove('set aside with it: later ready transactions of the sender, no others', Imp(room, z3.BoolVal(has(s.futs, x)) == And(x.f['from'].t == t.f['from'].t, x.f['nonce'].t > t.f['nonce'].t)))
    return f
def u_dropgood(cur, fut, who):
    def f(u):
        w = world(u); shape(u, w, cur, fut); s0 = read(u, w); al = s0.txs + s0.futs; t = tx(u, 'given'); t.f['ok'] = z3.Bool('valid'); pick(u, w, t, who); consistent(u, t, al); u.assume(t.f['nonce'].t < (1 << 256) - 4)
        u.call(Q + '::dropGood', [w.q, u.I.new(t)]); u.cover('returns'); s = inv(u, w); fs = s0.futs
        for x in s0.txs: u.prove('exactly the executed transaction leaves', z3.BoolVal(not has(s.txs, x)) == (x.f['hash'].t == t.f['hash'].t))
        for x in fs:
            d = x.f['nonce'].t - t.f['nonce'].t
            chain = And(t.f['ok'], x.f['from'].t == t.f['from'].t, Or(*[And(d == k + 1, *[Or(*[And(y.f['from'].t == t.f['from'].t, y.f['nonce'].t == t.f['nonce'].t + j) for y in fs]) for j in range(1, k + 1)]) for k in range(len(fs))]))
            u.prove('future transactions stay or become ready', has(s.txs + s.futs, x)); u.prove('they become ready exactly behind the executed one', z3.BoolVal(has(s.txs, x)) == chain)
        u.prove('nothing comes in', all(has(al, x) for x in s.txs + s.futs))
    return f
def u_drop(cur, fut):
    def f(u):
        w = world(u); shape(u, w, cur, fut); s0 = read(u, w); al = s0.txs + s0.futs; h = term(u, 'hash', 'hash32')
        u.call(Q + '::drop', [w.q, u.I.new(h)]); u.cover('returns'); s = inv(u, w)
        for x in s0.txs: u.prove('exactly the dropped transaction leaves', z3.BoolVal(not has(s.txs, x)) == (x.f['hash'].t == h.t))
        for x in s0.futs: u.prove('future transactions stay', has(s.futs, x))
        kn = Or(*[x.f['hash'].t == h.t for x in al]) if al else z3.BoolVal(False); u.prove('a known transaction is remembered as dropped', kn == (And(*[x == h.t for x in w.ins]) if w.ins else z3.BoolVal(False))); u.prove('nothing comes in', all(has(al, x) for x in s.txs + s.futs))
    return f
def u_setfuture(cur, fut):
    def f(u):
        w = world(u); shape(u, w, cur, fut); s0 = read(u, w); al = s0.txs + s0.futs; h = term(u, 'hash', 'hash32'); within(u, w)
        u.call(Q + '::setFuture', [w.q, u.I.new(h)]); u.cover('returns'); s = inv(u, w)
        u.prove('limit of future transactions', And(len(s.futs) <= s.n('m_futureLimit'), total(s.futs) <= s.n('m_futureSizeBytesLimit'))); u.prove('nothing comes in', all(has(al, x) for x in s.txs + s.futs))
        for x in s0.txs:
            moved = Or(*[And(y.f['hash'].t == h.t, x.f['from'].t == y.f['from'].t, x.f['nonce'].t >= y.f['nonce'].t) for y in s0.txs]); u.prove('set aside: it and the later ones of its sender, no others', z3.BoolVal(not has(s.txs, x)) == moved)
        room = And(len(al) <= s.n('m_futureLimit'), total(al) <= s.n('m_futureSizeBytesLimit')); u.prove('with room left nothing is lost', Imp(room, z3.BoolVal(all(has(s.txs + s.futs, x) for x in al))))
    return f
def result(u, r): v = u.I.val(r); return [p for _, p in v.ents]
def u_top(cur):
    def f(u):
        w = world(u); shape(u, w, cur, ''); s0 = read(u, w); lim = int_in(u, 'limit of the call', 32); mx, st = int_in(u, 'highest category', 32, True), int_in(u, 'category to set', 32, True)
        r = u.call(Q + '::topTransactions', [w.q, lim, mx, st], lambda I, fn: len(fn['params']) == 3); u.cover('returns'); s = inv(u, w); out = result(u, r); cat = {e: p.f['category'].t for e, p in s.cur}
        u.prove('nothing leaves the queue', len(s.cur) == len(s0.cur) and all(has(s.txs, x) for x in s0.txs)); u.prove('no transaction is handed out twice', And(*[a.f['hash'].t != b.f['hash'].t for i, a in enumerate(out) for b in out[:i]] or [z3.BoolVal(True)])); u.prove('at most as many as asked for', len(out) <= lim.t); u.prove('only ready transactions', all(has(s0.txs, x) for x in out))
        old = {e: p.f['category'].t for e, p in s0.cur}; tx0 = {e: p.f['transaction'] for e, p in s0.cur}
        for e in tx0:
            got = has(out, tx0[e]); u.prove('the category is set exactly on those handed out', cat[e] == (If(st.t >= 0, st.t, old[e]) if got else old[e])) if e in cat else None
            if got: u.prove('only of the categories asked for', old[e] <= mx.t)
            else: u.prove('left out only when enough were handed out', Or(old[e] > mx.t, len(out) == lim.t))
            for e2 in tx0:
                if e2 == e: continue
                a, b = tx0[e], tx0[e2]; sm = And(a.f['from'].t == b.f['from'].t, a.f['nonce'].t < b.f['nonce'].t, old[e] == old[e2])
                if has(out, b) and not got: u.prove('a later transaction of a sender is not handed out without the earlier one of its category', Not(sm))
                if got and has(out, b): ia = [i for i, x in enumerate(out) if same(x, a)][0]; ib = [i for i, x in enumerate(out) if same(x, b)][0]; u.prove('within a sender and category by nonce', Imp(sm, z3.BoolVal(ia < ib)))
    return f
def u_avoid(cur):
    def f(u):
        w = world(u); shape(u, w, cur, 'A'); s0 = read(u, w); lim = int_in(u, 'limit of the call', 32); h = term(u, 'hash to avoid', 'hash32'); t = u.T
        av = u.I.new(econt.make(u.I, ftype(u, Q, 'm_known'), [h]))
        r = u.call(Q + '::topTransactions', [w.q, lim, av], lambda I, fn: len(fn['params']) == 2 and I._strip(fn['params'][1]['t']).get('qn') == 'std::unordered_set'); u.cover('returns'); s = inv(u, w); out = result(u, r)
        u.prove('the queue is unchanged', len(s.cur) == len(s0.cur) and len(s.futs) == len(s0.futs)); idx = [next((i for i, x in enumerate(s0.txs) if same(x, y)), -1) for y in out]; u.prove('ready transactions in the order of the queue', -1 not in idx and idx == sorted(set(idx))); u.prove('at most as many as asked for', len(out) <= lim.t)
        for i, x in enumerate(s0.txs): 
            if i in idx: u.prove('none of those to avoid', x.f['hash'].t != h.t)
            else: u.prove('left out only when avoided or enough came before', Or(x.f['hash'].t == h.t, And(len(out) == lim.t, z3.BoolVal(all(j < i for j in idx)))))
    return f
def u_query(cur, fut):
    def f(u):
        w = world(u); shape(u, w, cur, fut); s0 = read(u, w); a = term(u, 'address asked for'); k = u.p.choose(3); 
        if k < 2: a = w.snd['AB'[k]]
        else: [u.assume(a.t != x.t) for x in w.snd.values()]
        al = u.I.new(a); u.cover('returns'); mine = lambda l: [x for x in l if x.f['from'].t.eq(a.t)]
        def mx(l):
            r = z3.IntVal(0)
            for x in mine(l): r = If(x.f['nonce'].t + 1 > r, x.f['nonce'].t + 1, r)
            return r
        [u.assume(x.f['nonce'].t < (1 << 256) - 1) for x in s0.txs + s0.futs]
        u.prove('maxNonce: one above the highest nonce of the sender', u.call(Q + '::maxNonce', [w.q, al]).t == mx(s0.txs + s0.futs)); u.prove('maxCurrentNonce: one above the highest ready nonce', u.call(Q + '::maxCurrentNonce', [w.q, al]).t == mx(s0.txs)); u.prove('waiting: the number of transactions of the sender', u.call(Q + '::waiting', [w.q, al]).t == len(mine(s0.txs + s0.futs)))
        kn = u.I.val(u.call(Q + '::knownTransactions', [w.q])); u.prove('known hashes: those of all its transactions', len(kn.ents) == len(s0.txs + s0.futs) and all(any(p.t.eq(t.f['hash'].t) for _, p in kn.ents) for t in s0.txs + s0.futs))
        st = u.I.val(u.call(Q + '::status', [w.q])).f if False else None
        inv(u, w); u.call(Q + '::clear', [w.q]); s = inv(u, w); u.prove('cleared: nothing is left', not s.txs and not s.futs)
    return f
B_ = lambda n, b: dict(name='txq.' + n, body=b, **S)
UNITS = [B_('compare', u_compare)] + [B_('import.%s-%s.%s%s' % (c or '0', f or '0', 'ABC'[k], '.future' if fu else ''), u_import(c, f, [k], fu)) for fu in (False, True) for c, f in (('', ''), ('A', ''), ('AA', ''), ('AB', ''), ('', 'A'), ('A', 'A'), ('B', 'A'), ('', 'AA'), ('A', 'AA')) for k in ((0,) if not (c + f) or 'A' in c + f else ()) + ((1,) if (c, f) in (('A', ''), ('', 'A'), ('A', 'A')) else ())] + \
    [B_('dropGood.%s-%s.%s' % (c or '0', f or '0', 'ABC'[k]), u_dropgood(c, f, [k])) for c, f, k in (('A', '', 0), ('AA', '', 0), ('AB', '', 0), ('AAB', '', 0), ('ABA', '', 0), ('', 'A', 0), ('A', 'A', 0), ('AB', 'A', 0), ('', 'AA', 0), ('A', 'AA', 0), ('B', 'A', 1), ('A', 'A', 2))] + \
    [B_('drop.%s-%s' % (c or '0', f or '0'), u_drop(c, f)) for c, f in (('', ''), ('A', ''), ('AA', ''), ('AB', 'A'), ('AAB', ''), ('ABA', ''), ('BAA', ''))] + \
    [B_('setFuture.%s-%s' % (c or '0', f or '0'), u_setfuture(c, f)) for c, f in (('', ''), ('A', ''), ('AA', ''), ('AB', ''), ('AAB', ''), ('ABA', ''), ('A', 'A'), ('AA', 'A'), ('A', 'B'))] + \
    [B_('top.%s' % (c or '0'), u_top(c)) for c in ('', 'A', 'AA', 'AB', 'AAB', 'ABA')] + [B_('avoid.%s' % (c or '0'), u_avoid(c)) for c in ('', 'A', 'AB', 'AA')] + \
    [B_('query.%s-%s' % (c or '0', f or '0'), u_query(c, f)) for c, f in (('', ''), ('A', ''), ('AB', 'A'), ('AA', 'A'), ('A', 'AB'), ('B', 'AA'))]
if __name__ == '__main__': main(UNITS)
