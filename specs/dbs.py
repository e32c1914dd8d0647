"""logical databases on one store (C11), batched writes (C12), rotating pieces (C13): ghost store behind the virtual interface"""
from common import *
import econt
And, Or, Not = z3.And, z3.Or, z3.Not
DF = 'dev::db::DatabaseFace::'; WB = 'dev::db::WriteBatchFace::'; BF = 'batched_io::'
def sl(I, x):
    """the bytes of a slice, as (n, get)"""
    v = I.val(x); p = v.f['m_data']; n = v.f['m_count'].t
    if p is NULL or getattr(p, 'loc', None) is None: return n, None
    s = I.read(p.loc); return n, (lambda i, s=s, o=p.off: s.get(sub(add(o, i), 0)).t)
def sub(a, b): return a - b if b != 0 else a
def add(a, b): return a + b
def slice_in(u, nm, minlen=0):
    loc, s = bytes_in(u, nm, maxlen=1 << 32, signed=True); u.assume(s.n >= minlen); return u.I.new(vref(loc, 0, s.n), nm), s
class G: pass
def world(u):
    g = G(); g.ops = []; g.commits = []; g.made = []; g.disc = 0
    def op(kind, *, n):
        def f(I, e, fr, a):
            g.ops.append((kind, I.val(a[0]), [sl(I, x) for x in a[1:1 + n]]))
            if kind == 'lookup': g.res = I.fresh_seq('stored', 8, True, maxlen=1 << 32, kind='str'); return g.res
            if kind == 'exists': g.res = I.fresh_bool('present'); return g.res
            return OpaqueV('void')
        return f
    g.op = op
    g.con = {}
    for cls in (DF, BF + 'db_operations_face::', BF + 'db_face::'):
        for k, n in (('lookup', 1), ('exists', 1), ('insert', 2), ('kill', 1)): g.con[cls + k] = op(k, n=n)
    for k, n in (('insert', 2), ('kill', 1)): g.con[WB + k] = op('b' + k, n=n)
    g.mk = lambda nm='store': u.I.new(RecV('GhostStore', {}), nm)
    return g
def is_prefixed(u, what, got, pre, k):
    n, get = got; u.prove(what + ': length of the stored key', n == k.n + 1); u.prove(what + ': first byte is the prefix', get(0) == pre)
    i = z3.Int('i'); u.p.inputs['i'] = lambda m: str(m.eval(i, True)); u.prove(what + ': the rest is the key', Imp(And(i >= 0, i < k.n), get(i + 1) == k.get(i).t))
def is_same(u, what, got, v):
    n, get = got; i = z3.Int('j'); u.prove(what + ': length', n == v.n)
    if get is not None: u.prove(what + ': bytes', Imp(And(i >= 0, i < v.n), get(i) == v.get(i).t))
def pdb(u, g, qn, pre):
    st = g.mk(); f = {'prefix': pre, 'backend': PtrV(st)}
    if 'SplitDB' in qn: f['backend_mutex'] = PtrV(u.I.new(OpaqueV('mutex')))
    return u.I.new(RecV(qn, f), 'logical'), st
def keyed(qn, src):
    def one(op, nargs):
        def body(u):
            g = world(u); u.I.contracts = dict(g.con); pre = int_in(u, 'prefix', 8, True); d, st = pdb(u, g, qn, pre)
            k, ks = slice_in(u, 'key', 1); args = [d, k]
            if nargs == 2: v, vs = slice_in(u, 'value'); args.append(v)
            r = u.call(qn + '::' + op, args); u.cover('returns')
            u.prove('one operation on the store, of the same kind', len(g.ops) == 1 and g.ops[0][0] == op)
            if len(g.ops) == 1:
                is_prefixed(u, op, g.ops[0][2][0], pre.t, ks)
                if nargs == 2: is_same(u, 'value', g.ops[0][2][1], vs)
            if op == 'exists': u.prove('answers what the store answers', B(r) == B(g.res))
            if op == 'lookup': rv = u.I.val(r); is_same(u, 'answer', (rv.n, lambda i: rv.get(i).t), g.res)
        return body
    short = qn.split('::')[-1]
    return [dict(src=src, want=[qn.rsplit('::', 1)[0] + '::*'], mode='int', name='dbs.%s.%s' % (short, op), body=one(op, n)) for op, n in (('lookup', 1), ('exists', 1), ('insert', 2), ('kill', 1))]
SP = 'dev::db::SplitDB::PrefixedDB'; PB = 'batched_io::db_splitter::prefixed_db'
def iterate(I, g, f, key, val):
    """one step of an iteration over the store, at an arbitrary entry"""
    return I.tobool(I.call_value(I.val(f), [key, val]))
def each(qn, src, withp):
    def body(u):
        g = world(u); pre = int_in(u, 'prefix', 8, True); d, st = pdb(u, g, qn, pre)
        ek, eks = slice_in(u, 'entry key', 1); ev, evs = slice_in(u, 'entry value'); calls = []; stop = u.I.fresh_bool('callback result'); seen = []
        def user(I, args): calls.append([sl(I, x) for x in args]); return stop
        def fe(I, e, fr, a): seen.append(([], iterate(I, g, a[1], ek, ev))); return OpaqueV('void')
        def fep(I, e, fr, a):
            p = I.val(a[1]); seen.append((p, None)); n = p.n
            # the store visits exactly the entries that begin with the prefix it was given
            u.assume(n <= eks.n); i = z3.Int('q'); u.assume(z3.ForAll([i], Imp(And(i >= 0, i < n), eks.get(i).t == p.get(i).t))); u.assume(eks.get(0).t == p.get(0).t if 1 else True)
            seen[-1] = (p, iterate(I, g, a[2], ek, ev)); return OpaqueV('void')
        u.I.contracts = dict(g.con, **{c + 'forEach': fe for c in (DF, BF + 'db_operations_face::', BF + 'db_face::')}, **{c + 'forEachWithPrefix': fep for c in (DF, BF + 'db_operations_face::', BF + 'db_face::')})
        args = [d, FnV(py=user)]
        if withp: pl, ps = bytes_in(u, 'wanted prefix', maxlen=1 << 32, signed=True, kind='str'); args = [d, pl, FnV(py=user)]; before = ps
        u.call(qn + ('::forEachWithPrefix' if withp else '::forEach'), args); u.cover('returns'); u.prove('one iteration of the store', len(seen) == 1)
        if not seen: return
        res = seen[0][1]; mine = eks.get(0).t == pre.t
        if withp:
            p = seen[0][0]; i = z3.Int('i'); u.p.inputs['i'] = lambda m: str(m.eval(i, True)); u.prove('the store is asked for the prefix byte followed by the wanted prefix: length', p.n == ps.n + 1); u.prove('the store is asked for the prefix byte first', p.get(0).t == pre.t); u.prove('the store is asked for the prefix byte followed by the wanted prefix: bytes', Imp(And(i >= 0, i < ps.n), p.get(i + 1).t == ps.get(i).t))
            after = u.I.val(pl); u.prove('the wanted prefix is not changed', And(after.n == ps.n, Imp(And(i >= 0, i < ps.n), after.get(i).t == ps.get(i).t)))
        u.prove('the callback is called for entries of this logical database only, once', (mine if calls else Not(mine)) if len(calls) <= 1 else False)
        if calls:
            (kn, kg), vv = calls[0]; i = z3.Int('i'); u.prove('key without the prefix: length', kn == eks.n - 1)
            if kg is not None: u.prove('key without the prefix: bytes', Imp(And(i >= 0, i < kn), kg(i) == eks.get(i + 1).t))
            is_same(u, 'value', vv, evs); u.prove('the callback decides whether the iteration goes on', B(res) == B(stop))
        else: u.prove('entries of other logical databases do not end the iteration', B(res))
    return dict(src=src, want=[qn.rsplit('::', 1)[0] + '::*'], mode='int', name='dbs.%s.%s' % (qn.split('::')[-1], 'forEachWithPrefix' if withp else 'forEach'), body=body)
PW = 'dev::db::SplitDB::PrefixedWriteBatchFace'
def u_wb(op, nargs):
    def body(u):
        g = world(u); u.I.contracts = dict(g.con); pre = int_in(u, 'prefix', 8, True); st = g.mk('backend batch'); d = u.I.new(RecV(PW, {'prefix': pre, 'backend': PtrV(st), 'store': None}), 'batch'); from rangemask import ftype
        u.I.write(Loc(d.cell, d.path + (('f', 'store'),)), econt.make(u.I, ftype(u, PW, 'store'), []))
        for rnd in range(2):
            k, ks = slice_in(u, 'key%d' % rnd, 0); args = [d, k]; g.ops.clear()
            if nargs == 2: v, vs = slice_in(u, 'value%d' % rnd); args.append(v)
            u.call(PW + '::' + op, args); u.prove('one operation on the backend batch, of the same kind', len(g.ops) == 1 and g.ops[0][0] == 'b' + op)
            if len(g.ops) == 1:
                is_prefixed(u, op, g.ops[0][2][0], pre.t, ks)
                if nargs == 2: is_same(u, 'value', g.ops[0][2][1], vs)
        u.cover('returns')
    return body
def u_wbmake(u):
    g = world(u); pre = int_in(u, 'prefix', 8, True); d, st = pdb(u, g, SP, pre); bb = g.mk('backend batch'); got = []
    u.I.contracts = dict(g.con, **{DF + 'createWriteBatch': lambda I, e, fr, a: (g.made.append(1), PtrV(bb))[1], DF + 'commit': lambda I, e, fr, a: (got.append(I.val(a[1])), OpaqueV('void'))[1]})
    b = u.I.val(u.call(SP + '::createWriteBatch', [d])); u.cover('returns'); v = u.I.read(b.loc)
    u.prove('a batch of this logical database', v.qn == PW and len(g.made) == 1); u.prove('with its prefix', v.f['prefix'].t == pre.t); u.prove('around a batch of the store', v.f['backend'].loc is not None and v.f['backend'].loc.cell is bb.cell)
    u.call(SP + '::commit', [d, u.I.new(b)]); u.prove('committing hands exactly the batch of the store over, once', len(got) == 1 and got[0].loc is not None and got[0].loc.cell is bb.cell)
def newif(qn, cls, fld, fn):
    def body(u):
        from rangemask import ftype
        g = world(u); st = g.mk(); n = int_in(u, 'interfaces so far', 64); u.assume(n.t <= 255); f = {}
        ps = u.I.fresh_seq_of(ftype(u, qn, fld), n.t) if hasattr(u.I, 'fresh_seq_of') else SeqV(n.t, lambda i: PtrV(g.mk('iface')), None, 'vec')
        f = {'backend' if 'Split' in qn else 'm_backend': PtrV(st), fld: ps}
        if 'Split' in qn: f['mutexes'] = SeqV(n.t, lambda i: PtrV(u.I.new(OpaqueV('mutex'))), None, 'vec')
        d = u.I.new(RecV(qn, f), 'splitter'); r = u.I.val(u.call(qn + '::' + fn, [d])); u.cover('returns'); v = u.I.read(r.loc)
        u.prove('an interface of this class', v.qn == cls); p = v.f['prefix'].t; u.prove('its prefix is the number of interfaces made before, so all prefixes differ', z3.If(p < 0, p + 256, p) == n.t)
        u.prove('on the same store', v.f['backend'].loc.cell is st.cell); a = u.I.read(d).f[fld]; u.prove('it is counted', a.n == n.t + 1)
    return body
SD = dict(src='libdevcore/SplitDB.cpp', want=['dev::db::SplitDB::*'], mode='int'); BD = dict(src='libbatched-io/batched_db.cpp', want=['batched_io::*'], mode='int')
SPLIT_UNITS = keyed(SP, 'libdevcore/SplitDB.cpp') + keyed(PB, 'libbatched-io/batched_db.cpp') + [each(q, s, w) for q, s in ((SP, 'libdevcore/SplitDB.cpp'), (PB, 'libbatched-io/batched_db.cpp')) for w in (False, True)] + [
    dict(SD, cfg={'emap': True}, name='dbs.PrefixedWriteBatchFace.insert', body=u_wb('insert', 2)), dict(SD, cfg={'emap': True}, name='dbs.PrefixedWriteBatchFace.kill', body=u_wb('kill', 1)), dict(SD, name='dbs.PrefixedDB.createWriteBatch', body=u_wbmake),
    dict(SD, name='dbs.SplitDB.newInterface', body=newif('dev::db::SplitDB', SP, 'interfaces', 'newInterface')), dict(BD, name='dbs.db_splitter.new_interface', body=newif('batched_io::db_splitter', PB, 'm_interfaces', 'new_interface'))]

# ---------------------------------------------------------------- batched writes (C12)
BDB = 'batched_io::batched_db'
def bworld(u):
    """a store that records commits; batches are ghost objects, each with the operations put into it so far (an unknown run before the unit starts)"""
    g = world(u); g.ev = []
    def mk(I, e, fr, a): b = g.mk('new batch'); g.made.append(b); g.ev.append(('make', I.val(a[0]))); return PtrV(b)
    def com(I, e, fr, a): v = I.val(a[1]); g.commits.append((I.val(a[0]), v)); g.ev.append(('commit', None)); return OpaqueV('void')
    def crash(I, e, fr, a): g.ev.append(('crash point', None)); return OpaqueV('void')
    g.con.update({DF + 'createWriteBatch': mk, DF + 'commit': com, 'batched_io::test_crash_before_commit': crash, DF + 'discardCreatedBatches': lambda I, e, fr, a: (g.ev.append(('discard', None)), I.fresh_bool('had batches'))[1]})
    g.st = g.mk(); g.pend = g.mk('pending batch') if u.p.choose(2) else None
    g.obj = u.I.new(RecV(BDB, {'m_db': PtrV(g.st), 'm_batch': PtrV(g.pend) if g.pend else NULL, 'm_batch_mutex': OpaqueV('mutex')}), 'batched database')
    g.batch = lambda: u.I.read(Loc(g.obj.cell, g.obj.path + (('f', 'm_batch'),)))
    u.I.contracts = dict(g.con); return g
def isptr(v, l): return isinstance(v, PtrV) and v.loc is not None and v.loc.cell is l.cell
def isnull(v): return isinstance(v, PtrV) and v.loc is None
def u_bop(op, nargs):
    def body(u):
        g = bworld(u); k, ks = slice_in(u, 'key'); args = [g.obj, k]
        if nargs == 2: v, vs = slice_in(u, 'value'); args.append(v)
        u.call(BDB + '::' + op, args); u.cover('returns')
        u.prove('nothing reaches the store', not g.commits and not any(o[0] in ('insert', 'kill') for o in g.ops)); u.prove('one operation is added to a batch, of the same kind', len(g.ops) == 1 and g.ops[0][0] == 'b' + op)
        want = g.pend if g.pend else (g.made[0] if len(g.made) == 1 else None); u.prove('to the pending batch (made now if there is none)', want is not None and len(g.made) == (0 if g.pend else 1) and isptr(g.batch(), want))
        if len(g.ops) == 1 and want is not None:
            u.prove('it is that batch', isptr(PtrV(g.ops[0][1]) if isinstance(g.ops[0][1], Loc) else g.ops[0][1], want) if not isinstance(g.ops[0][1], RecV) else g.ops[0][1] is u.I.read(want)); is_same(u, 'key', g.ops[0][2][0], ks)
            if nargs == 2: is_same(u, 'value', g.ops[0][2][1], vs)
    return body
def u_bcommit(u):
    g = bworld(u); loc, s = bytes_in(u, 'crash point', maxlen=100, signed=True, kind='str'); u.call(BDB + '::commit', [g.obj, loc]); u.cover('returns')
    if g.pend: u.prove('exactly one batch is committed', len(g.commits) == 1); u.prove('it is the pending one', bool(g.commits) and isptr(g.commits[0][1], g.pend))
    else: u.prove('without pending operations at most an empty batch is committed', len(g.commits) <= 1 and all(len(g.made) == 1 and isptr(c[1], g.made[0]) for c in g.commits))
    u.prove('no operation is added or applied on its own', not g.ops); u.prove('nothing stays pending', isnull(g.batch())); ks = [x[0] for x in g.ev]
    u.prove('the crash point lies before the commit', ks.count('crash point') == 1 and (not g.commits or ks.index('crash point') < ks.index('commit')))
    n = len(g.commits); made = len(g.made); u.call(BDB + '::commit', [g.obj, loc]); u.prove('a second commit applies nothing again', not any(g.pend and isptr(c[1], g.pend) for c in g.commits[n:]) and not g.ops)
def u_brevert(u):
    g = bworld(u); u.call(BDB + '::revert', [g.obj]); u.cover('returns'); u.prove('nothing stays pending', isnull(g.batch())); u.prove('nothing is applied', not g.commits and not g.ops); u.prove('the store forgets its batches', [x[0] for x in g.ev] == ['discard'])
def u_bread(u):
    g = bworld(u); k, ks = slice_in(u, 'key'); r = u.call(BDB + '::exists', [g.obj, k]); e = g.res; rv = u.I.val(u.call(BDB + '::lookup', [g.obj, k])); u.cover('returns')
    u.prove('one question each', [o[0] for o in g.ops] == ['exists', 'lookup']); u.prove('presence as the store says', B(r) == B(e)); is_same(u, 'value as the store says', (rv.n, lambda i: rv.get(i).t), g.res)
    for o in g.ops: is_same(u, o[0] + ' key', o[2][0], ks)
    u.prove('the pending batch is untouched', (isptr(g.batch(), g.pend) if g.pend else isnull(g.batch())) and not g.commits)
def u_beach(u):
    g = bworld(u); got = []; f = FnV(py=lambda I, a: True); rec = lambda I, e, fr, a: (got.append([I.val(x) for x in a[1:]]), OpaqueV('void'))[1]; u.I.contracts = dict(g.con, **{DF + 'forEach': rec, DF + 'forEachWithPrefix': rec}); pl, ps = bytes_in(u, 'prefix', maxlen=1 << 32, signed=True, kind='str')
    u.call(BDB + '::forEach', [g.obj, f]); u.call(BDB + '::forEachWithPrefix', [g.obj, pl, f]); u.cover('returns'); u.prove('one iteration of the store each, with the same callback', len(got) == 2 and len(got[0]) == 1 and got[0][0] is f and len(got[1]) == 2 and got[1][1] is f)
    if len(got) == 2: p = got[1][0]; i = z3.Int('i'); u.prove('with the same prefix', And(p.n == ps.n, Imp(And(i >= 0, i < ps.n), p.get(i).t == ps.get(i).t)))
    u.prove('the pending batch is untouched', (isptr(g.batch(), g.pend) if g.pend else isnull(g.batch())) and not g.commits)
# LevelDB behind the interface
LV = 'dev::db::LevelDB'; LB = 'dev::db::LevelDBWriteBatch'
K = z3.Function('entryKey', z3.IntSort(), z3.IntSort(), z3.IntSort()); KL = z3.Function('entryKeyLen', z3.IntSort(), z3.IntSort()); VV = z3.Function('entryValue', z3.IntSort(), z3.IntSort(), z3.IntSort()); VL = z3.Function('entryValueLen', z3.IntSort(), z3.IntSort()); SW = z3.Function('entryStartsWithPrefix', z3.IntSort(), z3.BoolSort())
def lsl(I, v):
    v = I.val(v); p = v.f['p']; n = v.f['n']; s = I.read(p.loc) if isinstance(p, PtrV) and p.loc is not None else None
    return n, (None if s is None else (lambda i, s=s, o=p.off: s.get(add(i, o)).t))
def lworld(u):
    """a LevelDB object over an ordered list of entries; what LevelDB does with single operations is recorded"""
    g = world(u); g.log = []; g.ok = u.I.fresh_bool('status ok'); g.nf = u.I.fresh_bool('status not found'); u.assume(Not(And(B(g.ok), B(g.nf)))); I0 = u.I
    def ent(I, j, F, L):
        s = SeqV(L(j), lambda i, j=j: IntV(F(j, i if not isc(i) else z3.IntVal(i)), 8, True), None, 'str'); u.assume(And(L(j) >= 0, L(j) < (1 << 32))); return RecV('leveldb::Slice', {'p': PtrV(I.new(s, 'entry'), 0), 'n': L(j)})
    def slc(I, e, fr, a):
        if len(a) == 2: return RecV('leveldb::Slice', {'p': I.val(a[0]), 'n': I.val(a[1]).t})
        v = I.val(a[0])
        if isinstance(v, RecV): return v
        return RecV('leveldb::Slice', {'p': PtrV(I.new(v, 'text'), 0), 'n': v.n})
    g.st = g.mk('leveldb'); g.stat = RecV('leveldb::Status', {}); g.held = u.I.new(IntV(0, 64, True), 'guards held'); g.mode = None
    def guard(I, e, fr, a): I.write(g.held, IntV(I.read(g.held).t + 1, 64, True)); g.mode = 'shared'; return RecV(LV + '::SharedDBGuard', {})
    def unguard(I, e, fr, a): I.write(g.held, IntV(I.read(g.held).t - 1, 64, True)); return None
    def under(I): I.p.prove('the store handle is used only while it is guarded against reopening', I.read(g.held).t >= 1)
    u.I.cfg['dtors'] = (LV + '::SharedDBGuard',); g.con.update({LV + '::SharedDBGuard::(ctor)': guard, LV + '::SharedDBGuard::(dtor)': unguard})
    def rec(kind, sl_, ptrs=()):
        def f(I, e, fr, a):
            if kind[0].isupper(): under(I)
            g.log.append((kind, [lsl(I, a[i]) for i in sl_], [I.val(a[i]) for i in ptrs]))
            return g.stat
        return f
    def get(I, e, fr, a):
        under(I); g.log.append(('get', [lsl(I, a[2])], [])); g.val = I.fresh_seq('stored', 8, True, maxlen=1 << 32, kind='str')
        if I.p.branch(B(g.ok)): I.write(I.val(a[3]).loc, g.val)
        return g.stat
    g.N = z3.Int('entries'); u.assume(g.N >= 0); g.p0 = z3.Int('first'); u.assume(And(g.p0 >= 0, g.p0 <= g.N)); g.pos = u.I.new(IntV(-1, 64, True), 'position'); g.calls = u.I.new(IntV(0, 64, True), 'calls'); g.stopped = u.I.new(IntV(0, 8, True), 'stopped')
    P = lambda I: I.read(g.pos).t
    def seek0(I, e, fr, a): u.assume(g.p0 == 0); I.write(g.pos, IntV(g.p0, 64, True)); return OpaqueV('void')
    def seek(I, e, fr, a): g.sought = lsl(I, a[1]); I.write(g.pos, IntV(g.p0, 64, True)); return OpaqueV('void')
    def valid(I, e, fr, a): return And(P(I) >= 0, P(I) < g.N)
    def nxt(I, e, fr, a): I.p.prove('the iterator is moved only while it is valid', And(P(I) >= 0, P(I) < g.N)); I.write(g.pos, IntV(P(I) + 1, 64, True)); return OpaqueV('void')
    def starts(I, e, fr, a): g.tested = lsl(I, a[1]); return SW(I.val(a[0]).f['j'])
    def key(I, e, fr, a): I.p.prove('the iterator is read only while it is valid', And(P(I) >= 0, P(I) < g.N)); r = ent(I, P(I), K, KL); r.f['j'] = P(I); return r
    def val(I, e, fr, a): I.p.prove('the iterator is read only while it is valid', And(P(I) >= 0, P(I) < g.N)); return ent(I, P(I), VV, VL)
    g.con.update({'leveldb::Slice::(ctor)': slc, 'leveldb::Slice::data': lambda I, e, fr, a: I.val(a[0]).f['p'], 'leveldb::Slice::size': lambda I, e, fr, a: IntV(I.val(a[0]).f['n'], 64, False), 'leveldb::Slice::starts_with': starts,
        'leveldb::WriteBatch::Put': rec('put', (1, 2), (0,)), 'leveldb::WriteBatch::Delete': rec('delete', (1,), (0,)), 'leveldb::DB::Put': rec('Put', (2, 3)), 'leveldb::DB::Delete': rec('Delete', (2,)), 'leveldb::DB::Get': get, 'leveldb::DB::Write': rec('Write', (), (2,)), 'leveldb::DB::NewIterator': lambda I, e, fr, a: (under(I), PtrV(g.mk('iterator')))[1],
        'leveldb::Iterator::SeekToFirst': seek0, 'leveldb::Iterator::Seek': seek, 'leveldb::Iterator::Valid': valid, 'leveldb::Iterator::Next': nxt, 'leveldb::Iterator::key': key, 'leveldb::Iterator::value': val,
        'leveldb::Status::(ctor)': lambda I, e, fr, a: g.stat, 'leveldb::Status::operator=': lambda I, e, fr, a: a[0], 'leveldb::Status::IsNotFound': lambda I, e, fr, a: g.nf, 'leveldb::Status::ok': lambda I, e, fr, a: g.ok,
        'dev::db::checkStatus': lambda I, e, fr, a: OpaqueV('void') if I.p.branch(B(g.ok)) else (_ for _ in ()).throw(CxxThrow('dev::db::DatabaseError')), LV + '::reopenDataBaseIfNeeded': lambda I, e, fr, a: (g.log.append(('reopen', [], [])), OpaqueV('void'))[1]})
    g.db = u.I.new(RecV(LV, {'m_db': PtrV(g.st), 'm_readOptions': OpaqueV('ro'), 'm_writeOptions': OpaqueV('wo'), 'm_options': OpaqueV('o'), 'm_path': OpaqueV('path'), 'm_reopenPeriodMs': int_in(u, 'reopen period', 64, True), 'm_lastDBOpenTimeMs': IntV(0, 64, False), 'm_dbMutex': OpaqueV('mutex')}), 'leveldb')
    cnt = {LV + '::g_keysToBeDeletedStats': u.I.new(int_in(u, 'deletes', 64), 'g1'), LV + '::g_keyDeletesStats': u.I.new(int_in(u, 'deleted', 64), 'g2')}; u.I.cfg['globals'] = {k: (lambda I, gd, l=l: l) for k, l in cnt.items()}
    u.I.contracts = dict(g.con); return g
def u_lwb(u):
    g = lworld(u); wb = g.mk('write batch'); b = u.I.new(RecV(LB, {'m_writeBatch': u.I.read(wb), 'keysToBeDeletedCount': IntV(0, 64, False)}), 'batch'); k, ks = slice_in(u, 'key'); v, vs = slice_in(u, 'value')
    kill = u.p.choose(2); u.call(LB + ('::kill' if kill else '::insert'), [b, k] if kill else [b, k, v]); u.cover('returns'); u.prove('one operation, of the same kind', [x[0] for x in g.log] == ['delete' if kill else 'put'])
    if len(g.log) == 1:
        is_same(u, 'key', g.log[0][1][0], ks)
        if not kill: is_same(u, 'value', g.log[0][1][1], vs)
        u.prove('in the batch of this object', isinstance(g.log[0][2][0], RecV) and g.log[0][2][0] is u.I.read(Loc(b.cell, b.path + (('f', 'm_writeBatch'),))))
def u_lcommit(u):
    g = lworld(u); wb = RecV('GhostStore', {}); b = u.I.new(RecV(LB, {'m_writeBatch': wb, 'keysToBeDeletedCount': IntV(0, 64, False)}), 'batch'); null = u.p.choose(2); ok = g.ok
    x, r = u.throws(u.call, LV + '::commit', [g.db, u.I.new(NULL if null else PtrV(b))]); u.cover('returns'); w = [y for y in g.log if y[0] == 'Write']
    if null: u.prove('committing nothing is refused', x is not None and not w); return
    u.prove('one atomic write', len(w) == 1); u.prove('nothing else is written', all(y[0] in ('Write', 'reopen') for y in g.log))
    if w: u.prove('of exactly the batch given', isptr(w[0][2][0], b))
    u.prove('a failed write is reported', B(x is not None) == Not(B(ok)))
def u_lops(u):
    g = lworld(u); k, ks = slice_in(u, 'key'); v, vs = slice_in(u, 'value'); op = u.p.choose(4); nm = ('insert', 'kill', 'lookup', 'exists')[op]
    x, r = u.throws(u.call, LV + '::' + nm, [g.db, k] + ([v] if op == 0 else [])); u.cover('returns'); u.prove('one operation', [y[0] for y in g.log] == [('Put', 'Delete', 'get', 'get')[op]])
    if len(g.log) != 1: return
    is_same(u, 'key', g.log[0][1][0], ks)
    if op == 0: is_same(u, 'value', g.log[0][1][1], vs)
    if op < 2: u.prove('a failure is reported', B(x is not None) == Not(B(g.ok))); return
    u.prove('a failure other than absence is reported', B(x is not None) == Not(Or(B(g.ok), B(g.nf))))
    if x is None:
        if op == 3: u.prove('present exactly when the store has it', B(r) == B(g.ok))
        else: rv = u.I.val(r); u.prove('absent keys give the empty string', Imp(B(g.nf), rv.n == 0)); i = z3.Int('i'); u.prove('the stored value', Imp(B(g.ok), And(rv.n == g.val.n, Imp(And(i >= 0, i < rv.n), rv.get(i).t == g.val.get(i).t))))
def u_leach(withp):
    def body(u):
        g = lworld(u); fn = LV + ('::forEachWithPrefix' if withp else '::forEach'); T = lambda l: u.I.read(l).t; i = z3.Int('i')
        def user(I, a):
            I.p.prove('the callback is not called again after it asked to stop', T(g.stopped) == 0); j = g.p0 + T(g.calls); kn, kg = sl(I, a[0]); vn, vg = sl(I, a[1])
            I.p.prove('the callback gets the entries in order, none left out or repeated: key', And(kn == KL(j), Imp(And(i >= 0, i < kn), kg(i) == K(j, i)))); I.p.prove('the callback gets the value of the same entry', And(vn == VL(j), Imp(And(i >= 0, i < vn), vg(i) == VV(j, i))))
            if withp: I.p.prove('only entries with the prefix', SW(j))
            r = I.fresh_bool('callback result'); I.write(g.calls, IntV(T(g.calls) + 1, 64, True)); I.write(g.stopped, IntV(If(B(r), 0, 1), 8, True)); return r
        def inv(I, env, k):
            bl = [v for l, v in env.mods if isinstance(v, (bool, z3.BoolRef))]; cur = [I.read(l) for l, v in env.mods if isinstance(v, (bool, z3.BoolRef))]
            return [('position', T(g.pos) == g.p0 + T(g.calls)), ('calls', And(T(g.calls) >= 0, g.p0 + T(g.calls) <= g.N)), ('stop flag', And(T(g.stopped) >= 0, T(g.stopped) <= 1, *[(T(g.stopped) == 0) == B(c) for c in cur]))]
        from conv import loop
        loop(u, fn, LoopSpec(inv, None, name='iteration', affine=False)); pl, ps = bytes_in(u, 'prefix', maxlen=1 << 32, signed=True, kind='str')
        u.call(fn, [g.db] + ([pl] if withp else []) + [FnV(py=user)]); u.cover('returns'); e = g.p0 + T(g.calls)
        u.prove('it ends only when the callback asked to, at the end of the store' + (' or after the last entry with the prefix' if withp else ''), Or(T(g.stopped) == 1, e >= g.N, Not(SW(e)) if withp else False))
        if withp: is_same(u, 'it starts at the first entry not before the prefix', g.sought, ps)
    return body
LD = dict(src='libdevcore/LevelDB.cpp', want=[LV + '::*', LB + '::*'], mode='int')
BATCH_UNITS = [dict(BD, name='dbs.batched_db.insert', body=u_bop('insert', 2)), dict(BD, name='dbs.batched_db.kill', body=u_bop('kill', 1)), dict(BD, name='dbs.batched_db.commit', body=u_bcommit), dict(BD, name='dbs.batched_db.revert', body=u_brevert), dict(BD, name='dbs.batched_db.read', body=u_bread), dict(BD, name='dbs.batched_db.forEach', body=u_beach),
    dict(LD, name='dbs.LevelDBWriteBatch', body=u_lwb), dict(LD, name='dbs.LevelDB.commit', body=u_lcommit), dict(LD, name='dbs.LevelDB.ops', body=u_lops), dict(LD, name='dbs.LevelDB.forEach', body=u_leach(False)), dict(LD, name='dbs.LevelDB.forEachWithPrefix', body=u_leach(True))]
# ---------------------------------------------------------------- rotating pieces (C13)
MR = 'dev::db::ManuallyRotatingLevelDB'; RIO = 'batched_io::rotating_db_io'
HAS = z3.Function('pieceHasKey', z3.IntSort(), z3.BoolSort()); PVL = z3.Function('pieceValueLen', z3.IntSort(), z3.IntSort()); PV = z3.Function('pieceValue', z3.IntSort(), z3.IntSort(), z3.IntSort())
def zi(i): return i if not isc(i) else z3.IntVal(i)
def rworld(u):
    """any number N >= 1 of pieces, newest first; each piece has or has not the key asked for, with any value"""
    g = world(u); g.N = z3.Int('pieces'); u.assume(And(g.N >= 1, g.N < (1 << 32))); g.objs = u.I.new(SeqV(g.N, lambda i: RecV('Piece', {'i': IntV(zi(i), 64, False)}), None, 'arr'), 'piece objects')
    ps = SeqV(g.N, lambda i: PtrV(g.objs, zi(i)), None, 'deque'); from rangemask import ftype
    io = u.I.new(RecV(RIO, {'pieces': ps, 'n_pieces': int_in(u, 'kept', 64), 'current_piece_file_no': int_in(u, 'file', 64)}), 'pieces')
    g.db = u.I.new(RecV(MR, {'io_backend': PtrV(io), 'batch_cache': econt.make(u.I, ftype(u, MR, 'batch_cache'), []), 'm_mutex': OpaqueV('mutex')}), 'rotating database'); g.log = []
    def no(I, a): return I.val(a[0]).f['i'].t
    g.no = no
    def look(I, e, fr, a):
        j = no(I, a); g.log.append(('lookup', j, [sl(I, a[1])])); L = If(HAS(j), PVL(j), 0); u.assume(And(PVL(j) >= 0, PVL(j) < (1 << 32))); return SeqV(L, lambda i: IntV(PV(j, zi(i)), 8, True), None, 'str')
    def exi(I, e, fr, a): j = no(I, a); g.log.append(('exists', j, [sl(I, a[1])])); return HAS(j)
    g.con.update({DF + 'lookup': look, DF + 'exists': exi}); u.I.contracts = dict(g.con); return g
def rloop(u, fn, inv):
    from conv import loop
    loop(u, fn, LoopSpec(inv, None, name='pieces'))
def keys_ok(u, g, ks):
    for o in g.log: is_same(u, 'the key asked for', o[2][0], ks)
def u_rlookup(ex):
    def body(u):
        g = rworld(u); k, ks = slice_in(u, 'key'); fn = MR + ('::exists' if ex else '::lookup'); q = z3.Int('q'); j = z3.Int('j')
        rloop(u, fn, lambda I, env, n: [('no newer piece has the key', z3.ForAll([q], Imp(And(q >= 0, q < n), Not(HAS(q))))), ('inside', n <= g.N)])
        r = u.call(fn, [g.db, k]); u.cover('returns'); keys_ok(u, g, ks)
        m = z3.Int('newest'); u.p.inputs['newest piece with the key'] = lambda M: str(M.eval(m, True)); first = And(m >= 0, m < g.N, HAS(m), z3.ForAll([q], Imp(And(q >= 0, q < m), Not(HAS(q))))); none = z3.ForAll([q], Imp(And(q >= 0, q < g.N), Not(HAS(q))))
        if ex: u.prove('present when some piece has the key', Imp(And(m >= 0, m < g.N, HAS(m)), B(r))); u.prove('absent when none has', Imp(none, Not(B(r)))); return
        v = u.I.val(r); u.prove('the value of the newest piece that has the key: length', Imp(first, v.n == PVL(m))); u.prove('the value of the newest piece that has the key: bytes', Imp(And(first, j >= 0, j < v.n), v.get(j).t == PV(m, j))); u.prove('empty when no piece has it', Imp(none, v.n == 0))
    return body
def u_rinsert(u):
    g = rworld(u); k, ks = slice_in(u, 'key'); v, vs = slice_in(u, 'value'); lg = []
    u.I.contracts[DF + 'insert'] = lambda I, e, fr, a: (lg.append((g.no(I, a), sl(I, a[1]), sl(I, a[2]))), OpaqueV('void'))[1]
    u.call(MR + '::insert', [g.db, k, v]); u.cover('returns'); u.prove('one write', len(lg) == 1 and not g.ops and not g.log)
    if lg: u.prove('to the newest piece', lg[0][0] == 0); is_same(u, 'key', lg[0][1], ks); is_same(u, 'value', lg[0][2], vs)
def u_rkill(u):
    g = rworld(u); k, ks = slice_in(u, 'key'); q = z3.Int('q'); u.p.inputs['piece'] = lambda m: str(m.eval(q, True)); u.assume(And(q >= 0, q < g.N)); done = u.I.new(IntV(0, 64, False), 'deletions from piece q')
    def kill(I, e, fr, a): j = g.no(I, a); is_same(u, 'the key to delete', sl(I, a[1]), ks); I.write(done, IntV(I.read(done).t + If(j == q, 1, 0), 64, False)); return OpaqueV('void')
    u.I.contracts[DF + 'kill'] = kill
    rloop(u, MR + '::kill', lambda I, env, n: [('deleted from all pieces so far', I.read(done).t == If(q < n, 1, 0)), ('inside', n <= g.N)])
    u.call(MR + '::kill', [g.db, k]); u.cover('returns'); u.prove('deleted from every piece', u.I.read(done).t == 1); u.prove('nothing else', not g.ops and not g.log)
def u_rbatch(u):
    g = rworld(u); lg = []; b = g.mk('piece batch'); u.I.contracts.update({DF + 'createWriteBatch': lambda I, e, fr, a: (lg.append(('make', g.no(I, a))), PtrV(b))[1], DF + 'commit': lambda I, e, fr, a: (lg.append(('commit', g.no(I, a), I.val(a[1]))), OpaqueV('void'))[1]})
    r = u.I.val(u.call(MR + '::createWriteBatch', [g.db])); u.prove('one batch, of the newest piece', len(lg) == 1 and lg[0][0] == 'make'); u.prove('made by the newest piece', lg[0][1] == 0 if lg else False); u.prove('it is handed out', isptr(r, b))
    u.call(MR + '::commit', [g.db, u.I.new(r)]); u.cover('returns'); u.prove('one commit', len(lg) == 2 and lg[1][0] == 'commit' and not g.ops)
    if len(lg) == 2: u.prove('by the newest piece', lg[1][1] == 0); u.prove('of the batch given', isptr(lg[1][2], b))
def u_reach(withp):
    def body(u):
        g = rworld(u); fn = MR + ('::forEachWithPrefix' if withp else '::forEach'); done = u.I.new(IntV(0, 64, True), 'pieces done'); stopped = u.I.new(IntV(0, 8, True), 'stopped'); T = lambda l: u.I.read(l).t; ek, eks = slice_in(u, 'entry key'); ev, evs = slice_in(u, 'entry value'); pl, ps = bytes_in(u, 'prefix', maxlen=1 << 32, signed=True, kind='str')
        def user(I, a): I.p.prove('the callback is not called again after it asked to stop', T(stopped) == 0); is_same(u, 'key', sl(I, a[0]), eks); is_same(u, 'value', sl(I, a[1]), evs); r = I.fresh_bool('callback result'); I.write(stopped, IntV(If(B(r), 0, 1), 8, True)); return r
        def fe(I, e, fr, a):
            # a piece with no entry, or one at an arbitrary entry; the callback's answer ends the iteration of the piece
            I.p.prove('pieces in order, newest first, none left out', And(g.no(I, a) == T(done), T(stopped) == 0)); I.write(done, IntV(T(done) + 1, 64, True))
            if withp: p = I.val(a[1]); i = z3.Int('i'); I.p.prove('with the wanted prefix', And(p.n == ps.n, Imp(And(i >= 0, i < ps.n), p.get(i).t == ps.get(i).t)))
            if I.p.branch(B(I.fresh_bool('piece has entries'))):
                ans = I.tobool(I.call_value(I.val(a[-1]), [ek, ev])); I.p.prove('the callback decides whether the piece goes on', B(ans) == (T(stopped) == 0))
            return OpaqueV('void')
        u.I.contracts[DF + ('forEachWithPrefix' if withp else 'forEach')] = fe
        def inv(I, env, n): cur = [I.read(l) for l, v in env.mods if isinstance(v, (bool, z3.BoolRef))]; return [('pieces done', T(done) == n), ('inside', n <= g.N), ('going on', And(T(stopped) == 0, *[B(c) for c in cur]))]
        rloop(u, fn, inv); u.call(fn, [g.db] + ([pl] if withp else []) + [FnV(py=user)]); u.cover('returns'); u.prove('ends only after the last piece or when asked to', Or(T(stopped) == 1, T(done) == g.N))
    return body
# the pieces themselves: numbered directories 0.db .. n-1.db and archive-0.db ..; an open database is identified by its directory
NEWGEN = 1 << 40; ARCH = 1 << 50
def txt(I, v):
    v = I.val(v)
    if isinstance(v, RecV) and 'parts' in v.f: return v.f['parts']
    if isinstance(v, SeqV): return (('s', ''.join(chr(v.get(i).t) for i in range(v.n))),)
    if isinstance(v, PtrV): return txt(I, models.cstr(I, v))
    raise Unsupported('text %r' % (v,))
def merged(ps):
    r = []
    for k, x in ps:
        if k == 's' and r and r[-1][0] == 's': r[-1] = ('s', r[-1][1] + x)
        else: r.append((k, x))
    return tuple(r)
import models
def dworld(u):
    """directories and the databases open on them"""
    g = world(u); g.n = z3.Int('n'); g.c = z3.Int('current'); u.assume(And(g.n >= 2, g.n < (1 << 20), g.c >= 0, g.c < g.n)); g.cell = u.I.new(SeqV(1 << 60, lambda i: RecV('Db', {'id': IntV(zi(i), 64, False)}), None, 'arr'), 'databases'); g.ev = []
    g.ptr = lambda t: PtrV(g.cell, zi(t)); g.file = lambda j: If(g.c + j < g.n, g.c + j, g.c + j - g.n); T = lambda *a: RecV('txt', {'parts': merged(a)})
    def num(I, p):
        p = p.f['parts']; pre, parts = p[0], p[1:]
        if pre == ('base', None) and len(parts) == 2 and parts[0][0] == 'n' and parts[1] == ('s', '.db'): return 0, parts[0][1]
        if pre == ('base', None) and len(parts) == 3 and parts[0] == ('s', 'archive-') and parts[1][0] == 'n' and parts[2] == ('s', '.db'): return 1, parts[1][1]
        I.p.prove('only the directories of the pieces are touched', False); raise PathEnd()
    g.num = num; g.id = lambda I, p, new=False: (lambda a, t: t + ARCH if a else t)(*num(I, p)); g.base = RecV('path', {'parts': (('base', None),)})
    def pctor(I, e, fr, a): 
        v = I.val(a[0])
        return v if isinstance(v, RecV) and v.qn == 'path' else RecV('path', {'parts': txt(I, v)})
    def opened(I, e, fr, a):
        p = I.val(a[0]); k = g.id(I, p); gen = any(x[0] in ('remove', 'rename') and same_t(x[1], k) for x in g.ev); g.ev.append(('open', k)); return PtrV(g.cell, (k + NEWGEN) if gen else zi(k))
    def same_t(x, y): return z3.simplify(zi(x) - zi(y)).eq(z3.IntVal(0))
    def closed(I, k):
        s = I.read(g.pl); i = z3.Int('open piece'); I.p.prove('a directory is removed or renamed only while no database is open on it', Imp(And(i >= 0, i < s.n), s.get(i).off != k))
    def rem(I, e, fr, a): k = g.id(I, I.val(a[0])); closed(I, k); g.ev.append(('remove', k)); return IntV(1, 64, False)
    def ren(I, e, fr, a): k = g.id(I, I.val(a[0])); closed(I, k); g.ev.append(('rename', k, g.id(I, I.val(a[1])))); return OpaqueV('void')
    def mark(kind):
        def f(I, e, fr, a):
            n_, get = sl(I, a[1]); ok = n_ if isc(n_) else None; I.p.prove('the mark is a fixed key', ok == 64); loc = a[0] if isinstance(a[0], Loc) else None; idv = I.val(a[0]).f['id'].t; g.ev.append((kind, idv)); return g.onmark(I, kind, idv) if hasattr(g, 'onmark') else OpaqueV('void')
        return f
    istxt = lambda I, x: isinstance(I.val(x), RecV) and I.val(x).qn == 'txt'
    def op(I, e, fr, a): return T(*(txt(I, a[0]) + txt(I, a[1]))) if istxt(I, a[0]) or istxt(I, a[1]) else step(I, e, fr, a, 1)
    def step(I, e, fr, a, d):
        # positions are checked where they are used (erase, emplace); the one past the end by one in between is not judged
        x, y = I.val(a[0]), I.val(a[1])
        return PtrV(x.loc, x.off + d * y.t) if isinstance(x, PtrV) and isinstance(y, IntV) and x.loc is not None else models.M['std::operator' + '-+'[d > 0]](I, e, fr, a)
    g.con.update({'boost::filesystem::path::(ctor)': pctor, 'boost::filesystem::operator/': lambda I, e, fr, a: RecV('path', {'parts': merged(txt(I, a[0]) + txt(I, a[1]))}), 'boost::filesystem::remove_all': rem, 'boost::filesystem::rename': ren, 'std::to_string': lambda I, e, fr, a: T(('n', I.val(a[0]).t)), 'std::operator+': op, 'std::operator-': lambda I, e, fr, a: step(I, e, fr, a, -1),
        'dev::db::LevelDB::(ctor)': opened, 'dev::db::LevelDB::defaultDBOptions': lambda I, e, fr, a: OpaqueV('o'), 'dev::db::LevelDB::defaultReadOptions': lambda I, e, fr, a: OpaqueV('o'), 'dev::db::LevelDB::defaultWriteOptions': lambda I, e, fr, a: OpaqueV('o'),
        DF + 'insert': mark('mark'), DF + 'kill': mark('unmark'), DF + 'exists': mark('marked?'), 'batched_io::test_crash_before_commit': lambda I, e, fr, a: (g.ev.append(('crash point',)), OpaqueV('void'))[1]})
    u.I.cfg['global_init'] = ('batched_io::current_piece_mark_key',); u.I.contracts = g.con
    g.m = z3.Int('archives'); u.assume(And(g.m >= 0, g.m < (1 << 30))); g.arch = u.I.fresh_bool('archive mode'); u.assume(Imp(Not(B(g.arch)), g.m == 0)); return g
def rio(u, g, pieces):
    o = u.I.new(RecV(RIO, {'base_path': g.base, 'pieces': pieces, 'current_piece_file_no': IntV(g.c, 64, False), 'n_pieces': IntV(g.n, 64, False), 'archive_mode': g.arch, 'archive_pieces': SeqV(0, None, None, 'deque')}), 'pieces'); g.pl = Loc(o.cell, o.path + (('f', 'pieces'),)); return o
def opened_seq(g, n, file, m): return SeqV(n, lambda i: PtrV(g.cell, If(zi(i) < g.n, file(i), ARCH + m - 1 - (zi(i) - g.n))), None, 'deque')
def u_rotate(u):
    g = dworld(u); o = rio(u, g, opened_seq(g, g.n + g.m, g.file, g.m)); u.call(RIO + '::rotate', [o]); u.cover('returns'); I = u.I
    old = If(g.c == 0, g.n - 1, g.c - 1); arch = B(g.arch); s = I.read(g.pl); i = z3.Int('piece'); u.p.inputs['piece'] = lambda m: str(m.eval(i, True)); cur = I.read(o).f['current_piece_file_no'].t
    u.prove('the number of pieces in rotation stays; an archive is added in archive mode', s.n == g.n + g.m + If(arch, 1, 0)); u.prove('the emptied directory is the current one now', cur == old)
    u.prove('the newest piece is a new database in the directory of the oldest', s.get(0).off == old + NEWGEN); u.prove('the other pieces move one place and stay', Imp(And(i >= 1, i < g.n), s.get(i).off == g.file(i - 1)))
    u.prove('archives stay, newest first, behind the pieces', Imp(And(i >= g.n, i < s.n), s.get(i).off == ARCH + g.m + If(arch, 1, 0) - 1 - (i - g.n)))
    ev = [e for e in g.ev if e[0] != 'crash point']; kinds = [e[0] for e in ev]; isarch = 'rename' in kinds; u.prove('in archive mode the oldest is kept under the next archive number, otherwise it is removed', arch if isarch else Not(arch))
    u.prove('nothing else is removed, renamed or opened', kinds in (['rename', 'open', 'open', 'mark', 'unmark'], ['remove', 'open', 'mark', 'unmark']) )
    for e in ev:
        if e[0] == 'remove': u.prove('removed: the oldest', e[1] == old)
        if e[0] == 'rename': u.prove('archived: the oldest', e[1] == old); u.prove('archived under the next number', e[2] == ARCH + g.m)
        if e[0] == 'mark': u.prove('the mark is put on the new piece', e[1] == old + NEWGEN)
        if e[0] == 'unmark': u.prove('the mark is taken off the previous newest piece', e[1] == g.file(0))
    if 'mark' in kinds and 'unmark' in kinds: u.prove('the new mark is written before the old one is deleted', kinds.index('mark') < kinds.index('unmark'))
def prevf(g, i): return If(i == 0, g.n - 1, i - 1)
def marks(u, g):
    """what a rotation, complete or interrupted, leaves: no mark, one, or two on c and on its predecessor (the newer)"""
    mc = u.I.new(IntV(int_in(u, 'mark on c', 1).t, 8, False), 'mark on c'); mp = u.I.new(IntV(int_in(u, 'mark on predecessor', 1).t, 8, False), 'mark on predecessor'); p = prevf(g, g.c); g.mc = mc; g.mp = mp; T = lambda l: u.I.read(l).t; u.assume(Imp(T(mp) == 1, T(mc) == 1)); g.mc0 = T(mc); g.mp0 = T(mp)
    def on(I, kind, k):
        if kind == 'marked?': return Or(And(k == g.c, T(mc) == 1), And(k == p, T(mp) == 1))
        if kind == 'unmark': I.write(mc, IntV(If(k == g.c, 0, T(mc)), 8, False)); I.write(mp, IntV(If(k == p, 0, T(mp)), 8, False))
        return OpaqueV('void')
    g.onmark = on
def u_recover(u):
    from conv import loop
    g = dworld(u); u.assume(g.n >= 3); marks(u, g); o = rio(u, g, SeqV(g.n, lambda i: PtrV(g.cell, zi(i)), None, 'deque')); T = lambda l: u.I.read(l).t
    loop(u, RIO + '::recover', LoopSpec(lambda I, env, k: [('inside', k <= g.n), ('the newer mark stays', T(g.mp) == g.mp0), ('the older mark goes when passed', T(g.mc) == If(And(g.mp0 == 1, k > g.c), 0, g.mc0))], None, name='recover'))
    u.call(RIO + '::recover', [o]); u.cover('returns'); u.prove('the newer mark stays', T(g.mp) == g.mp0); u.prove('the older of two marks is deleted, a single one stays', T(g.mc) == If(g.mp0 == 1, 0, g.mc0)); u.prove('nothing is written', not any(e[0] in ('mark', 'open', 'remove', 'rename') for e in g.ev))
def u_rctor(u):
    from conv import loop
    g = dworld(u); one = u.I.fresh_bool('a piece is marked'); fn = RIO + '::(ctor)'; g.recovered = 0
    g.onmark = lambda I, kind, k: And(B(one), k == g.c) if kind == 'marked?' else OpaqueV('void'); cur = If(B(one), g.c, 0)
    def rec(I, e, fr, a): s = I.read(a[0].i(0) if 0 else Loc(a[0].cell, a[0].path + (('f', 'pieces'),))); i = z3.Int('i'); I.p.prove('all pieces are open before the repair', And(s.n == g.n, Imp(And(i >= 0, i < g.n), s.get(i).off == i))); g.recovered += 1; return OpaqueV('void')
    def ex(I, e, fr, a): k = g.id(I, I.val(a[0])); return And(k >= ARCH, k < ARCH + g.m)
    u.I.contracts.update({RIO + '::recover': rec, 'boost::filesystem::exists': ex})
    pl = lambda env: [l for l, v in env.mods if isinstance(v, SeqV)]
    def st(f):
        def state(I, env, k):
            c = pl(env)
            if not c: raise loops.NotYet()
            return [(c[0], f(k))]
        return state
    rot = lambda k: SeqV(g.n, lambda i: PtrV(g.cell, If(zi(i) + k < g.n, zi(i) + k, zi(i) + k - g.n)), None, 'deque'); fl = lambda i: If(zi(i) + cur < g.n, zi(i) + cur, zi(i) + cur - g.n)
    loop(u, fn, LoopSpec(lambda I, env, k: [('inside', k <= g.n)], st(lambda k: SeqV(k, lambda i: PtrV(g.cell, zi(i)), None, 'deque')), name='open'), 0)
    def inv2(I, env, k):
        c = [l for l, v in env.mods if isinstance(v, IntV) and not isc(v.t)]
        return [('inside', k <= g.n), ('no mark so far', Or(Not(B(one)), k <= g.c))] + [('not found yet', I.read(l).t == g.n) for l in c]
    loop(u, fn, LoopSpec(inv2, None, name='find'), 1)
    loop(u, fn, LoopSpec(lambda I, env, k: [('inside', k <= cur)], st(rot), name='turn'), 2)
    loop(u, fn, LoopSpec(lambda I, env, k: [('inside', k <= g.m)], st(lambda k: opened_seq(g, g.n + k, fl, k)), name='archives'), 3)
    o = u.I.val(u.construct(fn, [u.I.new(g.base), IntV(g.n, 64, False), g.arch])); u.cover('returns'); s = o.f['pieces']; i = z3.Int('piece')
    u.prove('repaired once', g.recovered == 1); u.prove('the current directory is the marked one (the first of a new database)', o.f['current_piece_file_no'].t == cur); u.prove('all pieces and all archives', s.n == g.n + g.m)
    u.prove('the pieces in order, newest first', Imp(And(i >= 0, i < g.n), s.get(i).off == fl(i))); u.prove('behind them the archives, newest first', Imp(And(i >= g.n, i < s.n), s.get(i).off == ARCH + g.m - 1 - (i - g.n)))
RD = dict(src='libdevcore/ManuallyRotatingLevelDB.cpp', want=[MR + '::*', RIO + '::*'], mode='int', cfg={'emap': True}); RB = dict(src='libbatched-io/batched_rotating_db_io.cpp', want=[RIO + '::*'], mode='int')
ROT_UNITS = [dict(RD, name='dbs.rotating.lookup', body=u_rlookup(False)), dict(RD, name='dbs.rotating.exists', body=u_rlookup(True)), dict(RD, name='dbs.rotating.insert', body=u_rinsert), dict(RD, name='dbs.rotating.kill', body=u_rkill), dict(RD, name='dbs.rotating.batch', body=u_rbatch), dict(RD, name='dbs.rotating.forEach', body=u_reach(False)), dict(RD, name='dbs.rotating.forEachWithPrefix', body=u_reach(True)),
    dict(RB, name='dbs.rotating.rotate', body=u_rotate), dict(RB, name='dbs.rotating.recover', body=u_recover), dict(RB, name='dbs.rotating.open', body=u_rctor)]
if __name__ == '__main__': main(SPLIT_UNITS + BATCH_UNITS + ROT_UNITS)
