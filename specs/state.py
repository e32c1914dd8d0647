"""account state (C08 rollback, C09 value transfers): any cache of accounts over any database content, seen from one arbitrary account and slot"""
from common import *
import econt
from econt import SegV, EV, pair
from rangemask import ftype
SRC = os.path.join(VERIF, 'tu/state.cpp'); WANT = ['skale::State::*', 'skale::Change::*', 'dev::eth::Account::*']
And, Or, Not = z3.And, z3.Or, z3.Not
S = 'skale::State'; AC = 'dev::eth::Account'; MOD = 1 << 256
INT = z3.IntSort(); BOOL = z3.BoolSort()
def addr(u, nm): c = z3.Int(nm); u.p.inputs[nm] = lambda m: str(m.eval(c, True)); return TermV(c, 'hash20')
class W: pass
def world(u, patch=True, fs=None):
    """any state: accounts cached (clean ones equal the database) or only in the database, any storage usage and change log"""
    I = u.I; w = W(); w.u = u; EMPTY = TermV(z3.Int('EmptySHA3'), 'hash32'); w.empty = EMPTY
    f1 = lambda nm, so=INT: z3.Function('db.' + nm, INT, so); w.dbhas = f1('has', BOOL); w.dbn, w.dbb, w.dbh, w.dbu = f1('nonce'), f1('balance'), f1('codeHash'), f1('used'); w.dbs = z3.Function('db.slot', INT, INT, INT); w.dbcode = {}
    absent = lambda a, t: u.assume(Imp(Not(w.dbhas(a)), t == 0))      # no slots are stored for accounts that do not exist
    def rng(t, s=False): lo, hi = (-(1 << 255), (1 << 255) - 1) if s else (0, MOD - 1); u.assume(And(t >= lo, t <= hi)); return IntV(t, 256, s)
    w.db = lambda a: dict(nonce=rng(w.dbn(a)), bal=rng(w.dbb(a)), hash=TermV(w.dbh(a), 'hash32'), used=rng(w.dbu(a), True))
    w.slotdb = lambda a, k: (absent(a, w.dbs(a, k)), rng(w.dbs(a, k)))[1]
    TA = ftype(u, S, 'm_cache'); TO = ftype(u, AC, 'm_storageOverlay')
    n = [0]
    def H(nm): n[0] += 1; f = z3.Function('in %s %d' % (nm, n[0]), INT, BOOL); return lambda k: f(k.t)
    def ev(kind, t, ents): return EV(kind, [(econt.neweid(I), p) for p in ents], t)
    def run(nm, mkat, has=None): return SegV(nm, I.fresh_int('len ' + nm, 64, False).t, has or H(nm), None, mkat)
    def slots(a, isdb):
        """any set of cached slots; isdb: they equal the database (True, or a condition)"""
        def mkat(I, k): v = I.fresh_int('cached slot', 256, False); u.assume(Imp(isdb, v.t == w.slotdb(a, k.t).t)); return pair(k, v)
        return ev('unordered_map', TO, [run('slots', mkat)])
    w.slots = slots
    def account(a, clean=None, alive=None):
        """any cached account at address a"""
        fi = I.fresh_int; unch = I.fresh_bool('unchanged') if clean is None else clean; al = I.fresh_bool('alive') if alive is None else alive; d = w.db(a)
        f = {'m_isAlive': al, 'm_isUnchanged': unch, 'm_hasNewCode': I.fresh_bool('new code'), 'm_nonce': fi('nonce', 256, False), 'm_balance': fi('balance', 256, False), 'm_codeHash': TermV(z3.Int(u.p.fresh('codeHash')), 'hash32'), 'm_version': fi('version', 256, False), 'm_storageOverlay': slots(a, B(unch)), 'm_storageOriginal': slots(a, True), 'm_codeCache': bytes_in(u, 'code', maxlen=1 << 32)[1], 'm_storageUsed': fi('used', 256, True), 'c': OpaqueV('counter'), 'm_storageRoot': TermV(z3.Int(u.p.fresh('root')), 'root')}
        u.assume(Imp(unch, And(B(al), w.dbhas(a), f['m_nonce'].t == d['nonce'].t, f['m_balance'].t == d['bal'].t, f['m_codeHash'].t == d['hash'].t, f['m_storageUsed'].t == d['used'].t, Not(B(f['m_hasNewCode'])))))
        u.assume(Imp(f['m_codeHash'].t == EMPTY.t, And(Not(B(f['m_hasNewCode'])), f['m_codeCache'].n == 0, f['m_version'].t == 0)))      # an account without code
        return RecV(AC, f)
    w.account = account; NE = H('nonexisting')
    def nehas(k): u.assume(Imp(NE(k), Not(w.dbhas(k.t)))); return NE(k)
    pre = SegV('older changes', I.fresh_int('number of older changes', 64, False).t, lambda k: False); u.assume(pre.n < 1 << 40); w.pre = pre
    def usage(nm):
        def mkat(I, k): return pair(k, I.fresh_int('usage', 256, True))
        return run(nm, mkat)
    f = {'m_db_read_lock': OptV(I.fresh_bool('rl'), OpaqueV('lock')), 'm_db_write_lock': OptV(I.fresh_bool('wl'), OpaqueV('lock')), 'x_db_ptr': PtrV(I.new(OpaqueV('mutex'))), 'm_db_ptr': PtrV(I.new(RecV('GhostDb', {}))), 'm_fs_ptr': NULL if (u.p.choose(2) if fs is None else not fs) else PtrV(I.new(RecV('GhostFs', {}))), 'm_orig_db': NULL,
         'm_cache': ev('unordered_map', TA, [run('cached accounts', lambda I, k: pair(k, account(k.t)))]), 'm_unchangedCacheEntries': ev('vector', ftype(u, S, 'm_unchangedCacheEntries'), [SegV('clean entries', I.fresh_int('clean', 64, False).t, lambda k: False)]), 'm_nonExistingAccountsCache': ev('unordered_set', ftype(u, S, 'm_nonExistingAccountsCache'), [SegV('nonexisting', I.fresh_int('ne', 64, False).t, nehas, None, lambda I, k: k)]),
         'm_accountStartNonce': I.fresh_int('start nonce', 256, False), 'm_changeLog': ev('vector', ftype(u, S, 'm_changeLog'), [pre]), 'm_initial_funds': I.fresh_int('initial funds', 256, False), 'contractStorageLimit_': I.fresh_int('limit', 256, True), 'storageUsage': ev('unordered_map', ftype(u, S, 'storageUsage'), [usage('usage')]), 'totalStorageUsed_': I.fresh_int('total used', 256, True), 'currentStorageUsed_': I.fresh_int('current used', 256, True)}
    big = 1 << 200
    for k in ('totalStorageUsed_', 'currentStorageUsed_'): u.assume(And(f[k].t > -big, f[k].t < big))       # storage counters are far from overflow
    v = I.fresh_int('version', 64, False); f['m_storedVersion'] = PtrV(I.new(v)); f['m_currentVersion'] = v
    w.s = I.new(RecV(S, f), 'state'); w.f = lambda: I.read(w.s).f; w.fs = []
    def acct(I, e, fr, a):
        """State::account: the cached account, loading it from the database when it is there (its own unit: state.account)"""
        st = I.L(a[0]) if hasattr(I, 'L') else a[0]; k = I.val(a[1]); l = st.f('m_cache'); c, n = econt.lfind(I, l, I.read(l), k)
        if n is not None: return PtrV(Loc(l.cell, l.path + (('e', c.ents[n][0]), ('f', 'second'))))
        l2 = st.f('m_nonExistingAccountsCache'); c2, n2 = econt.lfind(I, l2, I.read(l2), k)
        if n2 is not None: return NULL
        if not I.p.branch(w.dbhas(k.t)):
            econt.insert(I, l2, I.read(l2), k); return NULL
        ac = account(k.t, True, True); ac = RecV(AC, dict(ac.f, m_codeCache=SeqV(0, lambda i: IntV(0, 8, False), ac.f['m_codeCache'].et), m_storageOverlay=ev('unordered_map', TO, []), m_storageOriginal=ev('unordered_map', TO, []), m_version=IntV(0, 256, False)))
        n, _ = econt.insert(I, l, I.read(l), pair(k, ac)); c = I.read(l); l3 = st.f('m_unchangedCacheEntries'); x = I.read(l3); I.write(l3, x.w(x.ents + ((econt.neweid(I), k),)))
        return PtrV(Loc(l.cell, l.path + (('e', c.ents[n][0]), ('f', 'second'))))
    con = hashcon({S + '::account': acct, 'boost::multiprecision::literals::operator""_cppui256': lambda I, e, fr, a: IntV(z3.Int('a literal'), 256, False), 'ContractStoragePatch::isEnabledInWorkingBlock': lambda I, e, fr, a: patch, 'dev::eth::StorageRoot::(ctor)': lambda I, e, fr, a: TermV(z3.Int('EmptyTrie'), 'root'),
           'skale::OverlayFS::reset': lambda I, e, fr, a: w.fs.append('reset')})
    def lookup(I, e, fr, a):
        if len(a) != 3: raise Unsupported('OverlayDB::lookup')
        return TermV(w.slotdb(I.val(a[1]).t, num(I, a[2])).t, 'hash32')
    con['skale::OverlayDB::lookup'] = lookup
    def code(I, h):
        t = I.val(h).t; k = t.get_id()
        if k not in w.dbcode: w.dbcode[k] = bytes_in(u, 'stored code', maxlen=1 << 32)[1]
        return w.dbcode[k]
    con['dev::sha3'] = lambda I, e, fr, a: w.sha3(I, I.val(a[0])) if len(a) == 1 else (_ for _ in ()).throw(Unsupported('sha3'))
    w.hashes = []
    def sha3(I, s):
        """the hash of a byte string: equal strings have equal hashes; only the empty string has the hash EmptySHA3 (no collisions with it)"""
        if not isinstance(s, SeqV): raise Unsupported('sha3 of %r' % s)
        h = z3.Int(u.p.fresh('sha3')); u.assume((h == EMPTY.t) == (s.n == 0)); return TermV(h, 'hash32')
    w.sha3 = sha3
    I.contracts = con; I.cfg['globals'] = {'dev::EmptySHA3': lambda I, gd: EMPTY, 'dev::EmptyTrie': lambda I, gd: TermV(z3.Int('EmptyTrie'), 'root')}
    return w
def num(I, x):
    v = I.val(x); return v.t
def at(u, l, k):
    """entry with key k of a container of the state (None: no such entry)"""
    c, n = econt.lfind(u.I, l, u.I.read(l), k); return None if n is None else c.ents[n][1]
def acc(u, w, X): p = at(u, w.s.f('m_cache'), X); return p.f['second'] if p is not None else None
def aloc(u, w, X): l = w.s.f('m_cache'); c, n = econt.lfind(u.I, l, u.I.read(l), X); return Loc(l.cell, l.path + (('e', c.ents[n][0]), ('f', 'second')))
def view(u, w, X, K):
    """what can be observed of account X, its slot K (None: not of interest) and the storage counters"""
    r = {}; a = acc(u, w, X); f = w.f(); st = K is not None; K = K if st else IntV(0, 256, False)
    if a is not None:
        g = a.f; l = aloc(u, w, X); p = None
        if st: p = at(u, l.f('m_storageOverlay'), K); p = p if p is not None else at(u, l.f('m_storageOriginal'), K)
        g = u.I.read(l).f
        r = dict(exists=True, alive=g['m_isAlive'], balance=g['m_balance'].t, nonce=g['m_nonce'].t, codeHash=g['m_codeHash'].t, newcode=g['m_hasNewCode'], version=g['m_version'].t, slot=p.f['second'].t if p is not None else w.slotdb(X.t, K.t).t, used=g['m_storageUsed'].t, dirty=lnot(g['m_isUnchanged']), code=g['m_codeCache'])
        r['touched'] = land(r['dirty'], r['nonce'] == 0, r['balance'] == 0, r['codeHash'] == w.empty.t)
    elif u.I.p.branch(w.dbhas(X.t)):
        d = w.db(X.t); r = dict(exists=True, alive=True, balance=d['bal'].t, nonce=d['nonce'].t, codeHash=d['hash'].t, newcode=False, version=0, slot=w.slotdb(X.t, K.t).t, used=d['used'].t, touched=False, dirty=False, code=None)
    else: r = dict(exists=False, alive=False, balance=f['m_initial_funds'].t, nonce=f['m_accountStartNonce'].t, codeHash=w.empty.t, newcode=False, version=0, slot=0, used=0, touched=False, dirty=False, code=None)
    r['usage'] = 0
    if st: p = at(u, w.s.f('storageUsage'), X); r['usage'] = p.f['second'].t if p is not None else 0
    r['current'] = f['currentStorageUsed_'].t; r['total'] = f['totalStorageUsed_'].t; return r
NAMES = {'exists': 'existence', 'alive': 'being alive', 'balance': 'balance', 'nonce': 'nonce', 'codeHash': 'code hash', 'newcode': 'having new code', 'version': 'version', 'slot': 'storage slot', 'used': 'storage used', 'touched': 'being touched while empty', 'usage': 'storage used in the transaction', 'current': 'storage used in the transaction (all accounts)', 'total': 'total storage used'}
def eqv(x, y):
    if isinstance(x, bool) or isinstance(y, bool): return beq(x, y)
    if isinstance(x, z3.BoolRef): return x == y
    return x == y
def same(u, tag, v0, v1, skip=()):
    u.p.prove_all([('%s: %s' % (tag, nm), eqv(v0[k], v1[k])) for k, nm in NAMES.items() if k not in skip])
    if 'code' not in skip and v0['code'] is not None and v1['code'] is not None: u.prove(tag + ': code', True if v0['code'] is v1['code'] else land(v0['code'].n == v1['code'].n, u.I.veq(v0['code'], v1['code'], True)))
def fork(u, w, a, v1, keys):
    """replace the account by any other one that looks the same (other cached slots)"""
    l = aloc(u, w, a); g = u.I.read(l).f; pk = {k: view(u, w, a, IntV(k, 256, False))['slot'] for k in keys}
    u.I.write(l, RecV(AC, dict(g, m_storageOverlay=w.slots(a.t, False), m_storageOriginal=w.slots(a.t, True))))
    for k in keys: u.assume(view(u, w, a, IntV(k, 256, False))['slot'] == pk[k])
def u256(u, nm): return int_in(u, nm, 256)
def newvalue(u, w):
    if w.new == 'erase': return IntV(0, 256, False)
    v = u256(u, 'new value'); u.assume(v.t != 0); return v
# ---- operations: name -> (arguments, precondition)
def op(u, w, kind, A, K):
    I = u.I; c = lambda n, a, pred=None: u.throws(u.call, S + '::' + n, [w.s] + a, pred)[0]; np = lambda n: (lambda I, fn: len(fn['params']) == n)
    if kind == 'addBalance': return c('addBalance', [I.new(A), I.new(u256(u, 'amount'))])
    if kind == 'subBalance': return c('subBalance', [I.new(A), I.new(u256(u, 'amount'))])
    if kind == 'setBalance': return c('setBalance', [I.new(A), I.new(u256(u, 'amount'))])
    if kind == 'setNonce': return c('setNonce', [I.new(A), I.new(u256(u, 'new nonce'))])
    if kind == 'incNonce': return c('incNonce', [I.new(A)])
    if kind == 'createContract':
        return c('createContract', [I.new(A)])
    if kind == 'setStorage': return c('setStorage', [I.new(A), I.new(IntV(K.t, 256, False)), I.new(newvalue(u, w))])
    if kind == 'clearStorageValue': return c('clearStorageValue', [I.new(A), I.new(IntV(K.t, 256, False)), I.new(w.cur)])
    if kind == 'setCode':
        v = bytes_in(u, 'new code', maxlen=1 << 32)[0]; return c('setCode', [I.new(A), v, I.new(u256(u, 'code version'))], lambda I, fn: '&&' in I.T[fn['params'][1]['t']].get('s', ''))
def u_undo(kind, case=None, new=None):
    def body(u):
        half = 1 if case else u.p.choose(2); w = world(u, fs=bool(half)); A, X = addr(u, 'the changed account'), addr(u, 'the observed account'); key = lambda nm: u256(u, nm); K, L = key('the changed slot'), key('the observed slot')
        if case == 'slot': X, L = A, K
        elif case == 'other slot': X = A; u.assume(K.t != L.t)
        elif case == 'other account': u.assume(X.t != A.t)
        sto = 'torage' in kind; watch = L if sto or half else None     # the two halves of the view are compared separately
        vA = view(u, w, A, K if sto else None); v0 = view(u, w, X, watch)
        if kind in ('setStorage', 'clearStorageValue', 'setCode'): u.assume(B(vA['exists']))
        if kind == 'createContract': u.assume(Not(B(vA['exists'])))
        if kind == 'setCode': u.assume(And(vA['codeHash'] == w.empty.t, B(vA['dirty'])))      # code is set once, on an account the transaction has changed
        if kind == 'clearStorageValue': u.assume(acc(u, w, A) is not None)       # its caller (clearStorage) has loaded the account
        w.cur = IntV(vA['slot'], 256, False); n0 = w.pre.n; w.new = new; thrown = op(u, w, kind, A, K); u.cover('throws' if thrown else 'returns')
        log = w.f()['m_changeLog']; u.prove('older changes stay in the log', len(log.ents) >= 1 and log.ents[0][1] is w.pre)
        entries = [p.f for _, p in log.ents[1:]]; u.cover('logged', len(entries) > 0); u.prove('every logged change is about the account', land(*[e['address'].t == A.t for e in entries]))
        if entries:
            u.prove('an account with logged changes is cached and changed', land(acc(u, w, A) is not None, lnot(acc(u, w, A).f['m_isUnchanged'])))
            if case != 'other account': fork(u, w, A, None, ([K.t] if sto else []) + ([L.t] if watch is not None and case not in ('slot', 'other account') else []))
        u.call(S + '::rollback', [w.s, IntV(n0, 64, False)]); u.cover('rolled back'); log = w.f()['m_changeLog']; u.prove('the log is the older one', len(log.ents) == 1 and log.ents[0][1] is w.pre)
        same(u, 'restored', v0, view(u, w, X, watch)); u.prove('the file system cache is dropped', True if w.f()['m_fs_ptr'].null else len(w.fs) >= 1)
    return body
CASES = ('slot', 'other slot', 'other account')
OPS = ('addBalance', 'subBalance', 'setBalance', 'setNonce', 'incNonce', 'createContract', 'setStorage', 'clearStorageValue', 'setCode')
B_ = dict(src=SRC, want=WANT, mode='int', cfg={'emap': True})
UNITS8 = [dict(B_, name='state.undo.' + k, body=u_undo(k)) for k in OPS if 'torage' not in k] + [dict(B_, name='state.undo.%s.%s' % (k, c.replace(' ', '')), body=u_undo(k, c)) for k in ('clearStorageValue',) for c in CASES] + [dict(B_, name='state.undo.setStorage.%s.%s' % (n, c.replace(' ', '')), body=u_undo('setStorage', c, n), budget=500) for n in ('erase', 'write') for c in CASES]
# ---- effects of the value operations (C09)
def u_transfer(part):
    def body(u):
        I = u.I; w = world(u, fs=False); A, T, X = addr(u, 'from'), addr(u, 'to'), addr(u, 'the observed account'); K = None if part in ('sum', 'self') else u256(u, 'slot'); v = u256(u, 'amount'); self_ = part == 'self'
        if self_: T = A
        elif part == 'sum': u.assume(A.t != T.t)
        if part == 'others': u.assume(And(X.t != A.t, X.t != T.t))
        va, vt = view(u, w, A, None), view(u, w, T, None); vx = view(u, w, X, K) if K is not None else None
        if part == 'sum': u.assume(va['balance'] + vt['balance'] < MOD)      # the sum of all balances fits
        t = u.throws(u.call, S + '::transferBalance', [w.s, I.new(A), I.new(T), I.new(v)])[0]; u.cover('throws' if t else 'returns')
        if t:
            u.prove('refused only for lack of funds (or an unset start nonce)', t.endswith('NotEnoughCash') or t.endswith('InvalidAccountStartNonceInState'))
            if t.endswith('NotEnoughCash'):
                u.prove('refused because the balance is less than the amount', And(v.t > 0, Or(Not(B(va['exists'])), va['balance'] < v.t))); u.prove('a refused debit changes no account', len(w.f()['m_changeLog'].ents) == 1)
                if part == 'refused': same(u, 'a refused debit changes nothing', vx, view(u, w, X, K))
            return
        if part == 'refused': u.prove('the debit is covered', Or(v.t == 0, And(B(va['exists']), va['balance'] >= v.t))); return
        if part == 'others': same(u, 'other accounts are untouched', vx, view(u, w, X, K)); return
        a, b = view(u, w, A, None)['balance'], view(u, w, T, None)['balance']
        if self_: u.prove('a transfer to oneself changes no balance', a == va['balance'])
        else: u.prove('the sum of the two balances is the same', a + b == va['balance'] + vt['balance']); u.prove('the sender loses the amount', a == va['balance'] - v.t); u.prove('the receiver gains the amount', b == vt['balance'] + v.t)
    return body
def u_single(kind):
    def body(u):
        w = world(u, fs=False); A, X = addr(u, 'the account'), addr(u, 'the observed account'); K = u256(u, 'slot') if u.p.choose(2) else None; v = u256(u, 'amount'); va, vx = view(u, w, A, K), view(u, w, X, K); t = u.throws(u.call, S + '::' + kind, [w.s, u.I.new(A), u.I.new(v)])[0]; u.cover('throws' if t else 'returns'); r = view(u, w, A, K); x = view(u, w, X, K)
        if t:
            if kind == 'subBalance': u.prove('a debit is refused when it exceeds the balance', land(t.endswith('NotEnoughCash'), Or(Not(B(va['exists'])), va['balance'] < v.t)))
            else: u.prove('refused only when the start nonce is unset', t.endswith('InvalidAccountStartNonceInState'))
            same(u, 'nothing changes when refused', vx, x); return
        if kind == 'subBalance': u.prove('a debit exceeding the balance is refused', Or(v.t == 0, And(B(va['exists']), va['balance'] >= v.t)))
        want = {'addBalance': (va['balance'] + v.t) % MOD, 'subBalance': va['balance'] - v.t, 'setBalance': v.t}[kind]; u.prove('balance', r['balance'] == want)
        same(u, 'only the balance of the account changes', va, r, ('balance', 'exists', 'alive', 'touched', 'nonce') if not va['exists'] is True else ('balance', 'touched')); u.prove('a new account has the start nonce', r['nonce'] == va['nonce'])
        if u.I.p.branch(X.t != A.t): same(u, 'other accounts are untouched', vx, x)
    return body
UNITS9 = [dict(B_, name='state.transfer.' + k, body=u_transfer(k)) for k in ('sum', 'self', 'others', 'refused')] + [dict(B_, name='state.' + k, body=u_single(k)) for k in ('addBalance', 'subBalance', 'setBalance')]
if __name__ == '__main__': main(UNITS8 + UNITS9)
