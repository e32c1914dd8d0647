"""the state overlay database (C10): cached changes over a committed store, seen from one arbitrary key of the store"""
from common import *
import econt
from econt import SegV, pair
from rangemask import ftype
from dbs import sl
SRC = 'libskale/OverlayDB.cpp'; WANT = ['skale::*', 'dev::FixedHash::*', 'dev::vector_ref::*', 'dev::asBytes']
And, Or, Not = z3.And, z3.Or, z3.Not
O = 'skale::OverlayDB'; BD = 'batched_io::'
NAMES = {'used': b'storageUsed', 'last': b'safeLastExecutedTransactionHash', 'receipts': b'safeLastTransactionReceipts'}
KINDS = ('account', 'auxiliary', 'storage', 'used', 'last', 'receipts', 'foreign')
def hsh(u, nm, n): 
    loc, s = bytes_in(u, nm, n=n, kind='arr'); return RecV('dev::FixedHash', {'m_data': s})
def hb(v): return v.f['m_data']
def cat(*ss):
    """concatenation of byte strings of known length"""
    out = []
    for s in ss: out += [s.get(i).t for i in range(s.n)] if isinstance(s, SeqV) else [x for x in s]
    return out
def ub(t):
    """byte as 0..255"""
    return t if isc(t) and t >= 0 else z3.If(t < 0, t + 256, t) if not isc(t) else t + 256
def vb(u, nm, lo=0, kind='vec', signed=False, n=None): return bytes_in(u, nm, maxlen=1 << 32, kind=kind, signed=signed, n=n)[1]
def eqb(u, n, get, v, nm='i'):
    """byte string (n, get) is v (equal as unsigned bytes), at an arbitrary position"""
    if isc(n) and isc(v.n):
        if n != v.n: return False
        return land(*[ub(get(i)) == ub(v.get(i).t) for i in range(n)])
    if isc(n) and n == 0: return v.n == 0
    i = z3.Int(u.p.fresh(nm)); return And(n == v.n, Imp(And(i >= 0, i < n), ub(get(i)) == ub(v.get(i).t)))
class W: pass
def world(u, kind, withdb=True, cached=True, also=None):
    """an overlay with any cached changes over a store with any content, seen from one key of the store"""
    I = u.I; w = W(); w.kind = kind; w.addr = hsh(u, 'address', 20); w.slot = hsh(u, 'slot', 32); w.space = int_in(u, 'space', 8)
    if kind == 'account': w.key = cat(hb(w.addr))
    elif kind == 'auxiliary': w.key = cat(hb(w.addr), [w.space.t])
    elif kind == 'storage': w.key = cat(hb(w.addr), hb(w.slot))
    elif kind in NAMES: w.key = list(NAMES[kind])
    else:
        n = [11, 27, 31, 20, 21, 52][0:3][u.p.choose(3)]; s = vb(u, 'key', n=n); w.key = cat(s)
        for x in NAMES.values():
            if len(x) == n: u.assume(Or(*[a != b for a, b in zip(w.key, x)]))
    # committed content at the key; nothing is pending between operations
    w.g = I.new(RecV('GhostStore', {'has': I.fresh_bool('committed'), 'val': vb(u, 'committed value', kind='str', signed=True, n=32 if kind in ('storage', 'last') else None), 'pend': IntV(0, 64, True), 'pval': vb(u, 'none', kind='str', signed=True), 'commits': IntV(0, 64, True)}), 'the committed and pending value of the key'); u.p.ghosts = {w.g.cell.serial}
    w.has0 = I.read(w.g).f['has']; w.val0 = I.read(w.g).f['val']
    if kind in ('account', 'auxiliary'): u.assume(Imp(w.has0, w.val0.n > 0))      # an empty value is never stored (postcondition of commit)
    w.store = I.new(RecV('GhostDb', {}), 'store')
    # cached changes: runs of entries of other keys, and possibly an entry of the key itself (and of a second key the unit names)
    w.addr2 = w.sub2 = None
    if also:
        w.addr2, w.sub2, c = also; sb = w.space if kind == 'auxiliary' else w.slot
        if c: w.addr2 = w.addr; u.assume(w.sub2.t != sb.t if kind == 'auxiliary' else Or(*[hb(w.sub2).get(i).t != hb(sb).get(i).t for i in range(32)]))
        else: u.assume(Or(*[hb(w.addr2).get(i).t != hb(w.addr).get(i).t for i in range(20)]))
    def dif(h, n, xs): return [Or(*[hb(h).get(i).t != hb(x).get(i).t for i in range(n)]) if n else h.t != x.t for x in xs]
    def run(nm, n, excl, mkv):
        """entries of any keys except the excluded ones"""
        def mk(I):
            h = hsh(u, 'other', n) if n else I.fresh_int('other', 8, False); [u.assume(d) for d in dif(h, n, excl)]; return pair(h, mkv(I))
        return SegV(nm, I.fresh_int('len ' + nm, 64, False).t, lambda k: And(True, *dif(k, n, excl)), mk)
    anyb = lambda I: vb(u, 'bytes'); anyh = lambda I: hsh(u, 'v', 32); f = {}
    mk = lambda fld, ents: econt.make(I, ftype(u, O, fld), ents); inner = lambda fld, ents: econt.make(I, u.T[ftype(u, O, fld)['args'][1]['t']], ents)
    def level(nm, n, keys, mkv, named):
        """runs and the entries of the named keys: named(key) gives the possible values"""
        e = [run(nm, n, keys, mkv)]
        for j, k in enumerate(keys):
            for v in named(j): e += [pair(k, v), run('%s%d' % (nm, j), n, keys, mkv)]
        return e
    w.cached = None; pick = lambda on: on and u.p.choose(2); sameaddr = also is not None and w.addr2 is w.addr; as_ = [w.addr] + ([w.addr2] if also and not sameaddr else [])
    def val(j, mkv):
        """the cached value of the key itself is remembered"""
        v = mkv(I)
        if j == 0: w.cached = v
        return v
    mine = lambda fld: cached and kind == {'m_cache': 'account', 'm_auxiliaryCache': 'auxiliary', 'm_storageCache': 'storage'}[fld]
    f['m_cache'] = mk('m_cache', level('accounts', 20, as_, anyb, lambda j: [val(j, anyb)] if pick(mine('m_cache')) else []))
    for fld, n, leaf, sub in (('m_auxiliaryCache', 0, anyb, w.space), ('m_storageCache', 32, anyh, w.slot)):
        def nest(j, fld=fld, n=n, leaf=leaf, sub=sub):
            if not pick(mine(fld)): return []
            ks = [sub] + ([w.sub2] if sameaddr else []) if j == 0 else [w.sub2]
            return [inner(fld, level('entries', n, ks, leaf, lambda m: [val(m if j == 0 else 1, leaf)] if pick(True) else []))]
        f[fld] = mk(fld, level(fld, 20, as_, lambda I, fld=fld, n=n, leaf=leaf: inner(fld, [run('inner', n, [], leaf)]), nest))
    w.last = hsh(u, 'last hash', 32); w.rec = vb(u, 'receipts'); w.used = I.fresh_int('storage used', 256, True)
    lt, rt = ftype(u, O, 'lastExecutedTransactionHash'), ftype(u, O, 'lastExecutedTransactionReceipts')
    c = u.p.choose(2) if cached and kind in ('last', 'receipts') else 1; w.opt = bool(c)
    f['lastExecutedTransactionHash'] = OptV(True, w.last, lt['args'][0]['t']) if c else OptV(False, None, lt['args'][0]['t'])
    f['lastExecutedTransactionReceipts'] = OptV(True, w.rec, rt['args'][0]['t']) if c else OptV(False, None, rt['args'][0]['t'])
    f['storageUsed_'] = w.used; f['m_db_face'] = PtrV(w.store) if withdb else NULL
    w.o = I.new(RecV(O, f), 'overlay'); w.withdb = withdb; w.patch = I.fresh_bool('zero values are deleted'); w.failures = 0
    # the store
    def match(I, s):
        n, get = s
        if isc(n):
            if n != len(w.key): return False
            return I.p.branch(land(*[ub(get(i)) == w.key[i] for i in range(n)]))
        if not I.p.branch(n == len(w.key)): return False
        return I.p.branch(land(*[ub(get(i)) == w.key[i] for i in range(len(w.key))]))
    def toseq(s): n, get = s; return SeqV(n, lambda i, g=get: IntV(g(i), 8, True), None, 'str')
    def gset(I, **kw): v = I.read(w.g); I.write(w.g, RecV(v.qn, dict(v.f, **kw)))
    def gv(I): return I.read(w.g).f
    w.gv = lambda: gv(I)
    def insert(I, e, fr, a):
        if match(I, sl(I, a[1])): gset(I, pend=IntV(1, 64, True), pval=toseq(sl(I, a[2])))
        return OpaqueV('void')
    def kill(I, e, fr, a):
        if match(I, sl(I, a[1])): gset(I, pend=IntV(2, 64, True))
        return OpaqueV('void')
    def exists(I, e, fr, a):
        if match(I, sl(I, a[1])): return gv(I)['has']
        return I.fresh_bool('other key present')
    def lookup(I, e, fr, a):
        if match(I, sl(I, a[1])): return gv(I)['val'] if I.p.branch(B(gv(I)['has'])) else SeqV(0, lambda i: IntV(0, 8, True), None, 'str')
        return I.fresh_seq('other value', 8, True, maxlen=1 << 32, kind='str')
    def commit(I, e, fr, a):
        if w.mayfail and I.p.choose(2):
            w.failures += 1; g = gv(I)
            if w.failures == 1:
                w.try1 = (g['pend'].t, g['pval']); w.cache1 = I.read(w.o).f
                if I.p.choose(2): gset(I, pend=IntV(0, 64, True))       # a failed commit applies nothing; its operations may be lost
                raise CxxThrow(w.failtype)
            # a failing try leads back to the state after the first failure, so any number of failing tries does
            u.prove('a failed try leaves the committed content alone', land(beq(B(g['has']), w.has0) if 0 else B(g['has']) == w.has0, g['val'] is w.val0))
            u.prove('every try makes the same operation on the key', land(g['pend'].t == w.try1[0], g['pval'].n == w.try1[1].n, eqb(u, g['pval'].n, lambda i: g['pval'].get(i).t, w.try1[1])))
            for k in ('m_cache', 'm_auxiliaryCache', 'm_storageCache'): u.prove('a failed try keeps ' + k, I.read(w.o).f[k] is w.cache1[k])
            raise PathEnd()
        p = gv(I)['pend'].t
        if p == 1: gset(I, has=True, val=gv(I)['pval'])
        if p == 2: gset(I, has=False)
        gset(I, pend=IntV(0, 64, True), commits=IntV(gv(I)['commits'].t + 1, 64, True)); return OpaqueV('void')
    def revert(I, e, fr, a): gset(I, pend=IntV(0, 64, True)); return OpaqueV('void')
    w.mayfail = 0; w.failtype = 'boost::exception'; con = {}
    for cls in (BD + 'db_operations_face::', BD + 'db_face::', BD + 'batched_face::'):
        con.update({cls + 'insert': insert, cls + 'kill': kill, cls + 'exists': exists, cls + 'lookup': lookup, cls + 'commit': commit, cls + 'revert': revert})
    P, ST = z3.Function('numberOf', z3.IntSort(), z3.IntSort()), None
    con['ContractStorageZeroValuePatch::isEnabledInWorkingBlock'] = lambda I, e, fr, a: w.patch
    con['exit'] = con['std::exit'] = lambda I, e, fr, a: (_ for _ in ()).throw(PathEnd())
    con['std::this_thread::sleep_for'] = lambda I, e, fr, a: OpaqueV('void')
    con['boost::diagnostic_information'] = lambda I, e, fr, a: I.fresh_seq('text', 8, True, maxlen=1000, kind='str')
    con['boost::multiprecision::number::str'] = lambda I, e, fr, a: w.text(I, I.val(a[0]))
    w.txt = {}
    def text(I, v):
        """the decimal text of a number: an injective function (read back by the constructor from text)"""
        k = v.t if isc(v.t) else v.t.get_id()
        if k not in w.txt: w.txt[k] = (v, vb(u, 'decimal text', kind='str', signed=True)); u.assume(w.txt[k][1].n > 0)
        return w.txt[k][1]
    w.text = text; I.contracts = con; return w
def visible_account(u, w, tag, has, val, fn='', **kw):
    """what lookup/exists say at the key is (has, val); an empty value counts as absent"""
    pr = {'account': ([w.o, u.I.new(w.addr)], 'lookup', 'exists', 2), 'auxiliary': ([w.o, u.I.new(w.addr), w.space], 'lookupAuxiliary', 'existsAuxiliary', 2), 'storage': ([w.o, u.I.new(w.addr), u.I.new(w.slot)], 'lookup', 'exists', 3)}[w.kind]
    np = len(pr[0]) - 1; pred = lambda I, fn: len(fn['params']) == np
    r = u.I.val(u.call(O + '::' + pr[1], pr[0], pred))
    if w.kind == 'storage':
        want = has; u.prove(tag + ': value', eqb(u, 32, lambda i: hb(r).get(i).t, want)); return
    u.prove(tag + ': value', And(B(eqb(u, r.n, lambda i: r.get(i).t, val)) if True else None, True) if has is True else (r.n == 0 if has is False else And(Imp(has, B(eqb(u, r.n, lambda i: r.get(i).t, val))), Imp(Not(has), r.n == 0))))
    if w.kind == 'account': x = u.call(O + '::exists', pr[0], pred); u.prove(tag + ': presence', B(x) == (And(has, val.n > 0) if val is not None else z3.BoolVal(False)))
ZERO = SeqV(32, lambda i: IntV(0, 8, False), None, 'arr')
def before(w):
    """(present, value) visible before the operation"""
    if w.kind == 'storage': return (hb(w.cached) if w.cached is not None else SeqV(32, lambda i: IntV(z3.If(w.has0, ub(w.val0.get(i).t), 0), 8, False), None, 'arr') if w.withdb else ZERO), None
    if w.cached is not None: return (w.cached.n > 0), w.cached
    return (w.has0, w.val0) if w.withdb else (False, None)
def args(u, w): return [w.o, u.I.new(w.addr)]
def unchanged(u, w): g = w.gv(); u.prove('the committed content and the pending operations are not touched', And(B(g['has']) == w.has0, g['pend'].t == 0, g['commits'].t == 0, B(g['val'] is w.val0)))
def u_read(kind, db):
    def body(u):
        w = world(u, kind, db); h, v = before(w); visible_account(u, w, 'read', h, v); u.cover('returns'); unchanged(u, w); u.prove('reading changes nothing', True)
    return body
CALL = {'account': ('insert', 'kill'), 'auxiliary': ('insertAuxiliary', 'killAuxiliary'), 'storage': ('insert', None)}
def wcall(u, w, addr, slot, space, val):
    I = u.I
    if w.kind == 'storage': u.call(O + '::insert', [w.o, I.new(addr), I.new(slot), I.new(val)], lambda I, fn: len(fn['params']) == 3)
    else:
        r = vref(I.new(val), 0, val.n); a = [w.o, I.new(addr), r] + ([space] if w.kind == 'auxiliary' else []); n = len(a) - 1
        u.call(O + '::' + CALL[w.kind][0], a, lambda I, fn: len(fn['params']) == n)
def u_write(kind, op, here):
    def body(u):
        also = None
        if not here:      # another key of the same kind: another address, or the same address and another space or slot
            c = u.p.choose(2) if kind != 'account' else 0; sub = int_in(u, 'its space', 8) if kind == 'auxiliary' else hsh(u, 'its slot', 32); also = [hsh(u, 'its address', 20), sub]
            also.append(c)
        w = world(u, kind, also=also)
        h, v = before(w); addr, slot, space = w.addr, w.slot, w.space
        if not here: addr, slot, space = w.addr2, w.sub2 if kind == 'storage' else w.slot, w.sub2 if kind == 'auxiliary' else w.space
        if op == 'insert':
            val = hsh(u, 'new value', 32) if kind == 'storage' else vb(u, 'new value'); wcall(u, w, addr, slot, space, val)
            if here: h, v = (hb(val), None) if kind == 'storage' else (val.n > 0, val)
        else:
            a = [w.o, u.I.new(addr)] + ([space] if kind == 'auxiliary' else []); n = len(a) - 1; u.call(O + '::' + CALL[kind][1], a, lambda I, fn: len(fn['params']) == n)
            if here: h, v = False, None
        u.cover('returns'); unchanged(u, w); visible_account(u, w, 'after', h, v)
    return body
def emptied(u, w):
    f = u.I.read(w.o).f
    for k in ('m_cache', 'm_auxiliaryCache', 'm_storageCache'): u.prove('nothing stays cached in ' + k, not f[k].ents)
    return f
def u_rollback(kind):
    def body(u):
        w = world(u, kind); u.I.contracts[O + '::storageUsed'] = lambda I, e, fr, a: w.sto; w.sto = u.I.fresh_int('committed counter', 256, True)
        u.call(O + '::rollback', [w.o]); u.cover('returns'); unchanged(u, w); f = emptied(u, w); u.prove('the counter is the committed one', f['storageUsed_'].t == w.sto.t); u.prove('the hash and the receipts of the transaction are forgotten', land(lnot(f['lastExecutedTransactionHash'].has), lnot(f['lastExecutedTransactionReceipts'].has)))
        w.cached = None
        if kind in CALL: h, v = before(w); visible_account(u, w, 'after', h, v)
    return body
def u_commit(kind, fails=0, ft='boost::exception'):
    def body(u):
        w = world(u, kind); w.mayfail = fails; w.failtype = ft; h, v = before(w) if kind in CALL else (None, None); loc, s = bytes_in(u, 'id', maxlen=100, signed=True, kind='str')
        if kind in ('last', 'receipts') and not w.opt: pass
        u.call(O + '::commit', [w.o, loc]); u.cover('returns'); g = w.gv(); f = emptied(u, w); u.prove('one successful commit of the store, nothing pending', And(g['commits'].t == 1, g['pend'].t == 0))
        if kind in CALL:
            if kind == 'storage':
                got = lambda i: z3.If(B(g['has']), ub(g['val'].get(i).t), 0); u.prove('the committed slot is the visible one', eqb(u, 32, got, h)); u.prove('a stored slot has 32 bytes', Imp(g['has'], B(g['val'].n == 32)))
            else:
                u.prove('present in the store exactly when visible', B(g['has']) == B(h))
                if v is not None: u.prove('the committed value is the visible one', Imp(g['has'], B(eqb(u, g['val'].n, lambda i: g['val'].get(i).t, v))))
                u.prove('an empty value is never stored', Imp(g['has'], B(g['val'].n > 0)))
            visible_account(u, w, 'after', h, v)
        elif kind == 'foreign': u.prove('other keys are left alone', And(B(g['has']) == w.has0, B(g['val'] is w.val0)))
        else:
            u.prove('stored', B(g['has']))
            want = {'used': lambda: w.text(u.I, w.used), 'last': lambda: hb(w.last), 'receipts': lambda: w.rec}[kind]() if w.opt else w.val0
            if not w.opt: u.prove('an unchanged value stays', And(Imp(w.has0, B(eqb(u, g['val'].n, lambda i: g['val'].get(i).t, w.val0))), Imp(Not(w.has0), g['val'].n == 0 if kind == 'receipts' else B(eqb(u, g['val'].n, lambda i: g['val'].get(i).t, ZERO)))))
            if w.opt: u.prove('the committed value is the visible one', eqb(u, g['val'].n, lambda i: g['val'].get(i).t, want))
    return body
def u_get(kind, db):
    g_, s_ = ('getLastExecutedTransactionHash', 'setLastExecutedTransactionHash') if kind == 'last' else ('getPartialTransactionReceipts', 'setPartialTransactionReceipts')
    def body(u):
        w = world(u, kind, db); by = (lambda v: hb(v)) if kind == 'last' else (lambda v: v)
        def is_(tag, r, v): r = by(u.I.val(r)); u.prove(tag, eqb(u, r.n, lambda i: r.get(i).t, v))
        def first(r, tag):
            if w.opt: is_(tag, r, by(w.last if kind == 'last' else w.rec)); return
            x = by(u.I.val(r)); has = w.has0 if db else z3.BoolVal(False); u.prove(tag + ' (committed value)', And(Imp(has, B(eqb(u, x.n, lambda i: x.get(i).t, w.val0))), Imp(Not(has), x.n == 0 if kind == 'receipts' else B(eqb(u, x.n, lambda i: x.get(i).t, ZERO)))))
        first(u.call(O + '::' + g_, [w.o]), 'first read'); first(u.call(O + '::' + g_, [w.o]), 'second read'); unchanged(u, w)
        v = hsh(u, 'new', 32) if kind == 'last' else vb(u, 'new'); u.call(O + '::' + s_, [w.o, u.I.new(v)]); is_('read after writing', u.call(O + '::' + g_, [w.o]), by(v)); u.cover('returns'); unchanged(u, w)
    return body
def u_used(db):
    def body(u):
        w = world(u, 'used', db); P = z3.Int('the number written in the committed text'); u.I.contracts['boost::multiprecision::number::(ctor string)'] = lambda I, e, fr, a: (u.prove('the number is read from the committed text', eqb(u, a[0].n, lambda i: a[0].get(i).t, w.val0)), IntV(P, 256, True))[1]
        u.assume(B(w.has0)); r = u.I.val(u.call(O + '::storageUsed', [w.o])); u.cover('returns'); u.prove('the committed counter', r.t == (P if db else 0)); unchanged(u, w)
        n = int_in(u, 'new counter', 256, True); u.call(O + '::updateStorageUsage', [w.o, u.I.new(n)]); unchanged(u, w); u.prove('the new counter waits for the commit', u.I.read(w.o).f['storageUsed_'].t == n.t)
    return body
def entry(u, nm, n=None, pre=None):
    """an entry of the store: its key (n bytes, beginning with pre) and its value, as slices"""
    ks = bytes_in(u, nm + ' key', n=n, kind='str', signed=True)[1] if n else bytes_in(u, nm + ' key', maxlen=1 << 32, kind='str', signed=True)[1]; vs = bytes_in(u, nm + ' value', maxlen=1 << 32, kind='str', signed=True, n=32 if n == 52 else None)[1]
    if pre is not None: [u.assume(ub(ks.get(i).t) == pre.get(i).t) for i in range(20)]
    if n is None and pre is not None: u.assume(ks.n >= 20)
    return ks, vs, (u.I.new(vref(u.I.new(ks, 'k'), 0, ks.n)), u.I.new(vref(u.I.new(vs, 'v'), 0, vs.n)))
def feed(u, w, es, got):
    def f(I, e, fr, a):
        cb = I.val(a[-1])
        if len(a) == 3: p = I.val(a[1]); I.p.prove('the store is asked for the keys of the address', land(p.n == 20, eqb(u, 20, lambda i: p.get(i).t, hb(w.addr))))
        for ks, vs, sl_ in es:
            r = I.tobool(I.call_value(cb, list(sl_))); got.append(r)
            if not I.p.branch(B(r)): break
        return OpaqueV('void')
    for cls in (BD + 'db_operations_face::', BD + 'db_face::', BD + 'batched_face::'): u.I.contracts[cls + 'forEach'] = f; u.I.contracts[cls + 'forEachWithPrefix'] = f
def u_accounts(u):
    w = world(u, 'foreign'); n = [20, 21, 52, None][u.p.choose(4)]; es = [entry(u, 'a', n), entry(u, 'b', 20)]; got = []; feed(u, w, es, got)
    if n is None: u.assume(es[0][0].n != 20)
    elif n == 20: u.assume(Or(*[es[0][0].get(i).t != es[1][0].get(i).t for i in range(20)]))
    r = u.I.val(u.call(O + '::accounts', [w.o])); u.cover('returns'); unchanged(u, w); want = [es[1]] if n != 20 else es
    u.prove('all entries are visited', len(got) == 2); u.prove('one account per 20 byte key', len(r.ents) == len(want))
    for ks, vs, _ in want:
        u.prove('the account is listed with its value', lor(*[land(eqb(u, 20, lambda i, p=p: hb(p.f['first']).get(i).t, ks), p.f['second'].n == vs.n) for _, p in r.ents]))
    if len(r.ents) == len(want):
        for (_, p), (ks, vs, _) in zip(r.ents, want): v = p.f['second']; u.prove('key', eqb(u, 20, lambda i: hb(p.f['first']).get(i).t, ks)); u.prove('value', eqb(u, v.n, lambda i: v.get(i).t, vs))
NUM = z3.Function('number', *([z3.IntSort()] * 33))
def num(s): return NUM(*[ub(s.get(i).t) for i in range(32)])
def hconv(I, e, fr, a):
    """a 32 byte hash read as a number: a function of its bytes (C03 proves which)"""
    s = hb(I.val(a[0])); return IntV(num(s), 256, False)
def u_storage(u):
    w = world(u, 'foreign'); u.I.contracts['dev::FixedHash::(conv)'] = hconv; u.I.contracts['dev::FixedHash::operator Arith'] = hconv; n = [52, 20, 21, None][u.p.choose(4)]; es = [entry(u, 'a', n, hb(w.addr)), entry(u, 'b', 52, hb(w.addr))]; got = []; feed(u, w, es, got)
    def tail(ks): return SeqV(32, lambda i: ks.get(i + 20), None, 'arr')
    if n is None: u.assume(es[0][0].n != 52)
    elif n == 52: u.assume(num(tail(es[0][0])) != num(tail(es[1][0])))
    r = u.I.val(u.call(O + '::storage', [w.o, u.I.new(w.addr)])); u.cover('returns'); unchanged(u, w); want = [es[1]] if n != 52 else es
    u.prove('all entries are visited', len(got) == 2); u.prove('one slot per 52 byte key', len(r.ents) == len(want))
    if len(r.ents) == len(want):
        for (_, p), (ks, vs, _) in zip(r.ents, want): u.prove('slot', p.f['first'].t == num(tail(ks))); u.prove('value', p.f['second'].t == num(vs))
def u_empty(u):
    w = world(u, 'foreign'); k = u.p.choose(3); got = []; feed(u, w, [entry(u, 'e%d' % i) for i in range(k)], got); r = u.call(O + '::empty', [w.o]); u.cover('returns'); u.prove('empty exactly when the store has no entry', B(r) == z3.BoolVal(k == 0)); unchanged(u, w)
def u_clear(kind):
    def body(u):
        w = world(u, kind); before_ = u.p.choose(2); after_ = u.p.choose(2); here = u.I.p.branch(B(w.has0)); ks = SeqV(len(w.key), lambda i: IntV(pick8(w.key, i), 8, True), None, 'str'); es = [entry(u, 'o%d' % i, 7) for i in range(before_)] + ([(ks, w.val0, (u.I.new(vref(u.I.new(ks, 'k'), 0, ks.n)), u.I.new(vref(u.I.new(w.val0, 'v'), 0, w.val0.n))))] if here else []) + [entry(u, 'p%d' % i, 9) for i in range(after_)]
        got = []; feed(u, w, es, got); u.call(O + '::clearDB', [w.o]); u.cover('returns'); g = w.gv(); u.prove('no entry is left', Not(B(g['has']))); u.prove('one commit, nothing pending', And(g['commits'].t == 1, g['pend'].t == 0)); u.prove('all entries are visited', len(got) == len(es))
    return body
def pick8(key, i):
    s8 = lambda t: (t if t < 128 else t - 256) if isc(t) else z3.If(t < 128, t, t - 256)
    if isc(i): return s8(key[i])
    r = s8(key[-1])
    for j in range(len(key) - 2, -1, -1): r = z3.If(i == j, s8(key[j]), r)
    return r
def u_closed(u):
    w = world(u, 'foreign', False); u.prove('not connected', Not(B(u.call(O + '::connected', [w.o])))); u.prove('empty', B(u.call(O + '::empty', [w.o]))); u.prove('no accounts', len(u.I.val(u.call(O + '::accounts', [w.o])).ents) == 0); u.call(O + '::clearDB', [w.o]); f = u.I.read(w.o).f; u.call(O + '::commit', [w.o, u.I.new(vb(u, 'id', kind='str', signed=True))]); u.cover('returns'); g = u.I.read(w.o).f
    for k in ('m_cache', 'm_auxiliaryCache', 'm_storageCache'): u.prove('a commit without a store keeps ' + k, f[k] is g[k])
B_ = dict(src=SRC, want=WANT, mode='int', cfg={'emap': True, 'hash_bytes': True})
UNITS = [dict(B_, name='overlay.read.%s.%s' % (k, 'db' if d else 'nodb'), body=u_read(k, d)) for k in CALL for d in (True, False)] + \
    [dict(B_, name='overlay.%s.%s.%s' % (op, k, 'same' if h else 'other'), body=u_write(k, op, h)) for k in CALL for op in ('insert', 'kill') if not (k == 'storage' and op == 'kill') for h in (True, False)] + \
    [dict(B_, name='overlay.rollback.' + k, body=u_rollback(k)) for k in KINDS] + [dict(B_, name='overlay.commit.' + k, body=u_commit(k)) for k in KINDS] + [dict(B_, name='overlay.commit.retry.%s.%s' % (k, ft.split(':')[0]), body=u_commit(k, 1, ft)) for k in KINDS for ft in ('boost::exception', 'std::exception')]
UNITS += [dict(B_, name='overlay.%s.%s' % (k, 'db' if d else 'nodb'), body=u_get(k, d)) for k in ('last', 'receipts') for d in (True, False)] + [dict(B_, name='overlay.used.' + ('db' if d else 'nodb'), body=u_used(d)) for d in (True, False)] + \
    [dict(B_, name='overlay.accounts', body=u_accounts), dict(B_, name='overlay.storage', body=u_storage), dict(B_, name='overlay.empty', body=u_empty), dict(B_, name='overlay.closed', body=u_closed)] + [dict(B_, name='overlay.clearDB.' + k, body=u_clear(k)) for k in KINDS]
if __name__ == '__main__': main(UNITS)
