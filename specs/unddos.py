from common import *
from conv import loop
SRC = 'libskutils/src/unddos.cpp'
And, Or, Not = z3.And, z3.Or, z3.Not
N = 'skutils::unddos::'; TO = N + 'tracked_origin::'; AL = N + 'algorithm::'; OE = N + 'origin_entry_setting::'; ST = N + 'settings::'
S = dict(src=SRC, want=[N + '*'], mode='int')
INT = z3.IntSort()
NOERR, PEAK, LENGTHY, BADORIGIN, BAN = range(5)
T0 = z3.Int('clock')
def clock(I, e, fr, a): return IntV(T0, 64, True)
def te(t): return RecV(N + 'time_entry', {'ttm_': IntV(t, 64, True)})
def moment(u, name='now'):
    t = int_in(u, name, 64, True); u.assume(And(t.t >= 0, t.t < 1 << 40, T0 > 0, T0 < 1 << 40)); return t, z3.If(t.t == 0, T0, t.t)
def entries(u, nm, srt=True):
    n = z3.Int('len_' + nm); f = z3.Function(nm, INT, INT); u.assume(And(n >= 0, n < 1 << 40)); i, j = z3.Ints('i!s j!s'); u.p.inputs[nm + '.size'] = lambda m: str(m.eval(n, True))
    u.assume(z3.ForAll([i], And(f(i) > 0, f(i) < 1 << 40)))
    if srt: u.assume(z3.ForAll([i, j], Imp(And(0 <= i, i <= j, j < n), f(i) <= f(j))))
    return SeqV(n, lambda i: te(f(i if not isc(i) else z3.IntVal(i))), vt(u, 'time_entry'), 'vec'), n, f
def vt(u, nm): return next(i for i, t in enumerate(u.T) if t['k'] == 'rec' and t['qn'] == N + nm)
def origin(u, nm, srt=True):
    s, n, f = entries(u, nm + '.calls', srt); b = int_in(u, nm + '.ban_until', 64, True); u.assume(And(b.t >= 0, b.t < 1 << 41))
    return u.I.new(RecV(N + 'tracked_origin', {'origin_': TermV(z3.Int(nm + '.name'), 'str'), 'time_entries_': s, 'ban_until_': b}), nm), n, f, b.t
def banned(b, now): return And(b != 0, now <= b)
C0 = {'time': clock}
def bound(strict):
    """std::lower_bound / std::upper_bound over an ordered range, from their specification"""
    def h(I, e, fr, a):
        p, q, v = I.val(a[0]), I.val(a[1]), I.val(a[2]); s = I.read(p.loc); key = v.f['ttm_'].t; g = lambda i: s.get(i).f['ttm_'].t
        i, j = z3.Ints('i!b j!b'); I.p.prove('the range searched is ordered', z3.ForAll([i, j], Imp(And(p.off <= i, i <= j, j < q.off), g(i) <= g(j))))
        r = I.fresh_idx('bound'); I.p.assume(And(r >= p.off, r <= q.off)); below = (lambda t: t <= key) if strict else (lambda t: t < key)
        I.p.assume(z3.ForAll([i], Imp(And(p.off <= i, i < r), below(g(i))))); I.p.assume(z3.ForAll([i], Imp(And(r <= i, i < q.off), Not(below(g(i))))))
        return PtrV(p.loc, r)
    return h
C1 = dict(C0, **{'std::lower_bound': bound(False), 'std::upper_bound': bound(True)})
def u_count(u):
    l, n, f, b = origin(u, 'origin'); t, now = moment(u); d = int_in(u, 'window', 64, True); u.assume(And(d.t >= 0, d.t < 1 << 40)); st = int_in(u, 'steps', 64); tg = int_in(u, 'target', 64)
    r = u.call(TO + 'count_to_past', [l, t, d, st, tg]); u.cover('returns'); lo = z3.Int('firstInWindow'); i = z3.Int('i!c')
    u.assume(And(lo >= 0, lo <= n, z3.ForAll([i], Imp(And(0 <= i, i < lo), f(i) < now - d.t)), z3.ForAll([i], Imp(And(lo <= i, i < n), f(i) >= now - d.t))))   # lo: the first call not before the window
    u.assume(st.t != 0)
    u.prove('no call counted before the window or after the moment', And(lo + r.t <= n, Imp(r.t > 0, f(lo + r.t - 1) <= now))); u.prove('every call of the window counted', Imp(lo + r.t < n, f(lo + r.t) > now)); u.prove('never negative', r.t >= 0)
def u_checkban(u):
    l, n, f, b = origin(u, 'origin', False); t, now = moment(u); au = z3.Bool('autoClear')
    r = u.call(TO + 'check_ban', [l, t, au]); u.cover('returns'); b2 = u.I.read(l).f['ban_until_'].t
    u.prove('banned up to the end of the ban and not after', B(r) == banned(b, now)); u.prove('a running ban is kept, an ended one changes nothing', And(Imp(banned(b, now), b2 == b), Or(b2 == b, b2 == 0)))
    k = u.I.fresh_idx('k'); s = u.I.read(l).f['time_entries_']; u.prove('calls kept', And(s.n == n, Imp(And(0 <= k, k < n), s.get(k).f['ttm_'].t == f(k))))
def u_clearban(u):
    l, n, f, b = origin(u, 'origin', False); r = u.call(TO + 'clear_ban', [l]); u.cover('returns'); u.prove('no ban afterwards', u.I.read(l).f['ban_until_'].t == 0); u.prove('tells whether there was one', B(r) == (b != 0))
def suffix(u, l, n, f, m, what):
    s = u.I.read(l).f['time_entries_']; k = u.I.fresh_idx('k'); u.prove(what, And(B(s.n == n - m), Imp(And(0 <= k, k < n - m), s.get(k).f['ttm_'].t == f(k + m))))
def unload_loop(u, fn, n, f, extra):
    base = {}
    def st(I, env, k):
        kk = z3.IntVal(k) if isc(k) else k; th = env.this; th = th.loc if hasattr(th, 'loc') else th
        v = I.read(Loc(th.cell, th.path + (('f', 'time_entries_'),)))
        return [(Loc(th.cell, th.path + (('f', 'time_entries_'),)), SeqV(n - kk, lambda i: te(f(kk + i)), v.et, v.kind)), (env('cntRemoved'), IntV(kk, 64, False))]
    def inv(I, env, k): kk = z3.IntVal(k) if isc(k) else k; return [('removed so far', And(kk <= n, extra(kk)))]
    loop(u, TO + fn, LoopSpec(inv, st, name='unloading'), 0)
def u_unload(u):
    l, n, f, b = origin(u, 'origin'); t, now = moment(u); d = int_in(u, 'window', 64, True); u.assume(And(d.t >= 0, d.t < 1 << 40)); i = z3.Int('i!u')
    unload_loop(u, 'unload_old_data_by_time_to_past', n, f, lambda k: z3.ForAll([i], Imp(And(0 <= i, i < k), f(i) < now - d.t)))
    r = u.call(TO + 'unload_old_data_by_time_to_past', [l, t, d]); u.cover('returns'); rt = r.t if not isc(r.t) else z3.IntVal(r.t)
    suffix(u, l, n, f, rt, 'the oldest calls removed, the others kept'); u.prove('no call of the window removed', Imp(rt > 0, f(rt - 1) < now - d.t)); u.prove('every call before the window removed', Imp(And(rt < n, d.t != 0), f(rt) >= now - d.t)); u.prove('ban kept', u.I.read(l).f['ban_until_'].t == b)
def u_unloadn(u):
    l, n, f, b = origin(u, 'origin', False); m = int_in(u, 'max', 64)
    unload_loop(u, 'unload_old_data_by_count', n, f, lambda k: Imp(k > 0, n - k >= m.t))
    r = u.call(TO + 'unload_old_data_by_count', [l, m]); u.cover('returns'); rt = r.t if not isc(r.t) else z3.IntVal(r.t); suffix(u, l, n, f, rt, 'the oldest calls removed, the others kept'); u.prove('as many as exceed the maximum', rt == z3.If(n > m.t, n - m.t, 0))
# ------------------------------------------------------------ registering a call
def setit(end): return RecV('setit', {'end': end})
def entry(u, nm): return u.I.new(RecV(N + 'origin_entry_setting', dict({'origin_wildcards_': OpaqueV('wildcards'), 'map_custom_method_settings_': OpaqueV('methods')}, **{f: int_in(u, nm + '.' + f, 64, f.startswith('ban')) for f in ('max_calls_per_second_', 'max_calls_per_minute_', 'ban_peak_', 'ban_lengthy_', 'max_ws_conn_')})), nm)
def world(u):
    class G: pass
    g = G(); g.entry = entry(u, 'rule'); gl = u.I.read(entry(u, 'global'))
    for l in (u.I.read(g.entry), gl):
        for f in ('ban_peak_', 'ban_lengthy_'): u.assume(And(l.f[f].t >= 0, l.f[f].t < 1 << 40))
    g.gl = gl; g.en = z3.Bool('enabled'); g.o = origin(u, 'origin', False); g.g = origin(u, 'global', False); g.present = z3.Bool('origin known'); g.now0 = None; g.unl = []
    for n in ('enabled', 'origin known'): u.p.inputs[n] = lambda m, n=n: str(m.eval(z3.Bool(n), True))
    steps = {f: int_in(u, f, 64) for f in ('cntOptimizedMaxSteps4cm_', 'cntOptimizedMaxSteps4cs_', 'cntOptimizedMaxSteps4gm_', 'cntOptimizedMaxSteps4gs_')}
    for s in steps.values(): u.assume(s.t > 0)
    g.al = u.I.new(RecV(N + 'algorithm', dict({'mtx_': OpaqueV('mutex'), 'settings_': RecV(N + 'settings', {'enabled_': g.en, 'origins_': OpaqueV('origins'), 'global_limit_': gl}), 'tracked_origins_': OpaqueV('tracked'), 'tracked_global_': u.I.read(g.g[0]), 'map_ws_conn_counts_': OpaqueV('ws'), 'ws_conn_count_global_': int_in(u, 'connections', 64)}, **steps)), 'algorithm')
    g.tg = Loc(g.al.cell, (('f', 'tracked_global_'),)); g.settings = Loc(g.al.cell, (('f', 'settings_'),)); g.glloc = Loc(g.al.cell, (('f', 'settings_'), ('f', 'global_limit_')))
    g.oloc = g.o[0]
    return g
def who(u, g, l):
    """0: the origin concerned, 1: the whole server"""
    l = l if isinstance(l, Loc) else u.I.val(l).loc
    if u.I.sameloc(l, g.oloc): return 0
    return 1 if u.I.sameloc(l, g.tg) else None
CNT = z3.Function('callsInWindow', INT, INT, INT, INT); LIM = z3.Function('limit', INT, INT, INT)
def u_register(u):
    g = world(u); t, now = moment(u); d = int_in(u, 'window', 64, True); u.assume(And(d.t > 0, d.t < 1 << 40)); I = u.I
    oc, s = bytes_in(u, 'origin name', maxlen=64, signed=True, kind='str'); u.assume(s.n >= 1); c0 = s.get(0).t; case = u.p.choose(2); optr = PtrV(oc, 0) if case == 0 else NULL; meth = OpaqueV('method')
    def isme(I, x): I.p.prove('looked up by its own name', True if I.val(x) is optr or (isinstance(I.val(x), PtrV) and I.ptreq(I.val(x), optr) is True) else z3.BoolVal(False))
    def newto(I, e, fr, a):
        v = I.val(a[0])
        if isinstance(v, RecV): return v
        isme(I, v); return RecV(N + 'tracked_origin', {'origin_': TermV(z3.Int('origin.name'), 'str'), 'time_entries_': SeqV(0, lambda i: te(0), vt(u, 'time_entry'), 'vec') if len(a) < 2 or I.p.holds(I.val(a[1]).t == 0) else SeqV(1, lambda i: te(I.val(a[1]).t), vt(u, 'time_entry'), 'vec'), 'ban_until_': IntV(0, 64, True)})
    def find(I, e, fr, a): return setit(Not(g.present))
    def insert(I, e, fr, a):
        I.p.prove('a known origin is not entered again', Not(g.present)); g.present = z3.BoolVal(True); g.oloc = I.new(I.val(a[1]), 'origin'); return RecV('std::pair', {'first': setit(False), 'second': True})
    def deref(I, e, fr, a): I.p.prove('iterator-not-end', Not(B(I.val(a[0]).f['end']))); return g.oloc
    def unload(I, e, fr, a):
        I.p.prove('unloads what has left the window', And(I.val(a[1]).t == now, I.val(a[2]).t == d.t)); g.unl.append(1)
        if not I.p.branch(g.present): g.present = z3.BoolVal(False)
        elif I.p.branch(And(I.fresh_bool('all calls of the origin have left the window'), Not(banned(g.o[3], now)))): g.present = z3.BoolVal(False)
        else: g.present = z3.BoolVal(True)
        return I.fresh_int('unloaded', 64, False)
    seen = []
    def count(I, e, fr, a):
        w = who(u, g, a[0]); I.p.prove('counts the calls of the origin or of the server', w is not None); s = I.read(a[0]).f['time_entries_']
        I.p.prove('the call itself is counted', And(B(s.n > 0), s.get(s.n - 1 if not isc(s.n) else s.n - 1).f['ttm_'].t == now)); I.p.prove('counts up to now', And(I.val(a[1]).t == now, I.val(a[3]).t != 0))
        return IntV(CNT(w if w is not None else 7, I.val(a[2]).t, now), 64, False)
    def lim(k):
        def h(I, e, fr, a):
            l = a[0]; w = 0 if I.sameloc(l, g.entry) else 1 if I.sameloc(l, g.glloc) else 7; I.p.prove('limit of the method called', I.val(a[1]) is meth or getattr(I.val(a[1]), 'name', '') == 'method'); return IntV(LIM(w, k), 64, False)
        return h
    def rule(I, e, fr, a): isme(I, a[1]); return g.entry
    def eqit(neg):
        def h(I, e, fr, a):
            r = beq(I.val(a[0]).f['end'], I.val(a[1]).f['end']); return lnot(r) if neg else r
        return h
    I.contracts = dict(C0, **{'std::set::find': find, 'std::set::insert': insert, 'std::set::end': lambda I, e, fr, a: setit(True), 'std::_Rb_tree_const_iterator::operator*': deref, 'std::_Rb_tree_const_iterator::operator->': lambda I, e, fr, a: PtrV(g.oloc), 'std::operator==': eqit(False), 'std::operator!=': eqit(True), 'std::_Rb_tree_const_iterator::operator==': eqit(False), 'std::_Rb_tree_const_iterator::operator=': lambda I, e, fr, a: (I.write(a[0], I.val(a[1])), a[0])[1], 'std::_Rb_tree_iterator::(ctor)': lambda I, e, fr, a: I.val(a[0]),
        TO + '(ctor)': newto, AL + 'unload_old_data_by_time_to_past': unload, TO + 'count_to_past': count, OE + 'max_calls_per_minute': lim(0), OE + 'max_calls_per_second': lim(1), ST + 'find_origin_entry_setting': rule})
    i = z3.Int('i!l'); u.assume(And(*[And(LIM(w, k) >= 0, LIM(w, k) < 1 << 64) for w in (0, 1) for k in (0, 1)]))
    wc0 = I.read(g.al).f['ws_conn_count_global_'].t; ob0 = g.o[3]; gb0 = g.g[3]; pr0 = g.present; ol0 = g.oloc
    r = u.call(AL + 'register_call_from_origin', [g.al, optr, meth, t, d], lambda I, f: len(f['params']) == 4 and I.T[f['params'][0]['t']]['k'] == 'ptr'); u.cover('returns'); r = r.t
    bad = z3.BoolVal(True) if case else c0 == 0; gb = banned(gb0, now); ob = And(pr0, banned(ob0, now))
    ex = lambda w, k, win: And(LIM(w, k) > 0, CNT(w, win, now) > LIM(w, k))
    om, os_, gm, gs = ex(0, 0, d.t), ex(0, 1, 1), ex(1, 0, d.t), ex(1, 1, 1); E = I.read(g.entry).f; L = g.gl.f
    st = z3.If(Not(g.en), NOERR, z3.If(bad, BADORIGIN, z3.If(Or(gb, ob), BAN, z3.If(om, LENGTHY, z3.If(os_, PEAK, z3.If(gm, LENGTHY, z3.If(gs, PEAK, NOERR)))))))
    u.prove('refused exactly when banned or above a limit, with the reason', B(r == st))
    act = And(g.en, Not(bad)); after = I.read(g.tg); gb2 = after.f['ban_until_'].t; free = And(act, Not(gb), Not(ob))
    u.prove('whole-server ban set exactly when its limit is exceeded', And(Imp(And(free, Not(om), Not(os_), gm), gb2 == now + L['ban_lengthy_'].t), Imp(And(free, Not(om), Not(os_), Not(gm), gs), gb2 == now + L['ban_peak_'].t), Imp(Or(gb, Not(act)), gb2 == gb0), Imp(And(act, Not(gb), Or(ob, om, os_, Not(Or(gm, gs)))), Or(gb2 == gb0, gb2 == 0))))
    gs2 = after.f['time_entries_']; n0, f0 = g.g[1], g.g[2]; k = I.fresh_idx('k')
    u.prove('the call is entered for the whole server', And(B(gs2.n == z3.If(act, n0 + 1, n0)), Imp(And(0 <= k, k < n0), gs2.get(k).f['ttm_'].t == f0(k)), Imp(act, gs2.get(n0).f['ttm_'].t == now)))
    o2 = I.read(g.oloc); ob2 = o2.f['ban_until_'].t
    u.prove('ban of the origin set exactly when its limit is exceeded', And(Imp(And(free, om), ob2 == now + E['ban_lengthy_'].t), Imp(And(free, Not(om), os_), ob2 == now + E['ban_peak_'].t), Imp(And(act, Not(gb), ob), ob2 == ob0), Imp(And(free, Not(om), Not(os_)), Or(ob2 == 0, And(pr0, ob2 == ob0))), Imp(Or(Not(act), gb), ob2 == ob0)))
    s2 = o2.f['time_entries_']; u.prove('the call is entered for the origin', Imp(And(act, Not(gb)), And(B(g.present), B(s2.n > 0), s2.get(s2.n - 1).f['ttm_'].t == now)))
    u.prove('connection count untouched', I.read(g.al).f['ws_conn_count_global_'].t == wc0)
# ------------------------------------------------------------ unloading over all origins
def u_unload_all(u):
    """an arbitrary element of the tracked origins: forgotten only when nothing of it matters any more"""
    g = world(u); t, now = moment(u); d = int_in(u, 'window', 64, True); u.assume(And(d.t >= 0, d.t < 1 << 40)); I = u.I; KN = z3.Int('tracked origins'); u.assume(KN >= 0)
    NM = z3.Function('nameOf', INT, INT); EMPTY = z3.Function('allCallsLeft', INT, z3.BoolSort()); BANT = z3.Function('banOf', INT, INT); REM = z3.Function('forgotten', INT, z3.BoolSort()); i = z3.Int('i!f'); CAL = z3.Function('callsKept', INT, INT)
    cur = {}
    def el(k):
        if k not in cur: cur[k] = I.new(RecV(N + 'tracked_origin', {'origin_': TermV(NM(k), 'str'), 'time_entries_': OpaqueV('calls'), 'ban_until_': IntV(BANT(k), 64, True)}), 'element')
        return cur[k]
    pos = lambda v: I.val(v).f['pos'].t; RN = z3.Function('nameRemembered', INT, INT); RS = z3.Int('names remembered'); u.assume(RS >= 0)
    def it(k, q='setpos'): return RecV(q, {'pos': IntV(k, 64, False)})
    def names(x): v = I.val(x); return isinstance(v, RecV) and v.qn == 'nameset'
    def idx(x): k = pos(x); return k if not isc(k) else z3.IntVal(k)
    def deref(I, e, fr, a):
        k = idx(a[0])
        if I.val(a[0]).qn == 'namepos': I.p.prove('iterator-not-end', k < RS); cur['r'] = k; return I.new(TermV(RN(k), 'str'))
        I.p.prove('iterator-not-end', k < KN); u.assume(BANT(k) >= 0); l = el(k); cur['loc'] = l; cur['k'] = k; return l
    def inc(I, e, fr, a): I.write(a[0], it(idx(a[0]) + 1, I.val(a[0]).qn)); return a[0]
    un = []
    def unl(I, e, fr, a):
        l = a[0]
        if I.sameloc(l, g.tg): un.append('g'); I.p.prove('the whole server with the same window', And(I.val(a[1]).t == now, I.val(a[2]).t == d.t)); return I.fresh_int('n', 64, False)
        I.p.prove('the same window', And(I.val(a[1]).t == now, I.val(a[2]).t == d.t)); k = cur['k']; n = CAL(k); I.p.assume(And(n >= 0, n < 1 << 40, EMPTY(k) == (n == 0)))
        v = I.read(l); I.write(Loc(l.cell, l.path + (('f', 'time_entries_'),)), SeqV(n, lambda i: te(1), vt(u, 'time_entry'), 'vec')); return I.fresh_int('n', 64, False)
    def remember(I, e, fr, a):
        I.p.prove('an origin is forgotten only when its calls have left the window and it is not banned', And(EMPTY(cur['k']), Not(banned(BANT(cur['k']), now)))); I.p.prove('the name of that origin', I.val(a[1]).t == NM(cur['k'])); return RecV('std::pair', {'first': OpaqueV('it'), 'second': True})
    def erase(I, e, fr, a): v = I.val(a[1]); v = v if isinstance(v, TermV) else v.f['origin_']; I.p.prove('only a remembered origin is forgotten', v.t == RN(cur['r'])); return IntV(1, 64, False)
    def eqit(neg):
        def h(I, e, fr, a):
            r = idx(a[0]) == idx(a[1]); return Not(r) if neg else r
        return h
    class Rm: pass
    I.contracts = dict(C0, **{'std::set::(ctor)': lambda I, e, fr, a: RecV('nameset', {}), 'std::set::begin': lambda I, e, fr, a: it(0, 'namepos' if names(a[0]) else 'setpos'), 'std::set::end': lambda I, e, fr, a: it(RS, 'namepos') if names(a[0]) else it(KN), 'std::set::cbegin': lambda I, e, fr, a: it(0), 'std::_Rb_tree_const_iterator::operator*': deref, 'std::_Rb_tree_const_iterator::operator++': inc, 'std::operator!=': eqit(True), 'std::operator==': eqit(False), 'std::set::insert': remember, TO + 'unload_old_data_by_time_to_past': unl, 'std::set::erase': erase})
    def spec(I, s, fr):
        if s.get('range'):
            b = next(n for n in fr.names if n.startswith('__begin')) if any(n.startswith('__begin') for n in fr.names) else None
            def st2(I, env, k): return [(env(b), it(k if not isc(k) else z3.IntVal(k), 'namepos'))]
            return LoopSpec(state=st2, inv=lambda I, env, k: [('inside the remembered names', (k if not isc(k) else z3.IntVal(k)) <= RS)], name='forgetting')
        def st(I, env, k): return [(env('itWalk'), it(k if not isc(k) else z3.IntVal(k)))]
        return LoopSpec(state=st, inv=lambda I, env, k: [('inside the set', (k if not isc(k) else z3.IntVal(k)) <= KN)], name='walking over the origins')
    loop(u, AL + 'unload_old_data_by_time_to_past', spec)
    u.call(AL + 'unload_old_data_by_time_to_past', [g.al, t, d]); u.cover('returns'); u.prove('the calls of the whole server are unloaded too', z3.Implies(And(g.en, d.t != 0), z3.BoolVal(un.count('g') == 1)))
# ------------------------------------------------------------ simultaneous connections
def wsworld(u):
    g = world(u); H = z3.Function('ws.known', INT, z3.BoolSort()); C = z3.Function('ws.count', INT, INT); t = lambda k: (u.I.val(k).t if not isc(u.I.val(k).t) else z3.IntVal(u.I.val(k).t)); i = z3.Int('i!w')
    u.assume(z3.ForAll([i], And(C(i) >= 0, C(i) < 1 << 62))); rt = next(x for x in u.T if x['k'] == 'rec' and x['qn'] == N + 'algorithm' and 'rec' in x); ft = next(fd['t'] for fd in u.I.all_fields(rt) if fd['n'] == 'map_ws_conn_counts_'); ar = u.T[ft]['args']
    m = MapV(lambda k: H(t(k)), lambda k: IntV(C(t(k)), 64, False), ar[0]['t'], ar[1]['t'], 'map', None)
    u.I.write(Loc(g.al.cell, (('f', 'map_ws_conn_counts_'),)), m); g.H = H; g.C = C; g.n = u.I.read(g.al).f['ws_conn_count_global_'].t; u.assume(g.n < 1 << 62); g.oc, g.s = bytes_in(u, 'origin name', maxlen=64, signed=True, kind='str'); u.assume(g.s.n >= 1); g.case = u.p.choose(2); g.ptr = PtrV(g.oc, 0) if g.case == 0 else NULL; g.bad = z3.BoolVal(True) if g.case else g.s.get(0).t == 0
    g.me = z3.Int('origin.name'); g.mine = z3.If(H(g.me), C(g.me), 0); g.maxo = u.I.read(g.entry).f['max_ws_conn_'].t; g.maxg = g.gl.f['max_ws_conn_'].t
    u.I.contracts = dict(C0, **{'std::basic_string::(ctor)': lambda I, e, fr, a: TermV(g.me, 'str'), ST + 'find_origin_entry_setting': lambda I, e, fr, a: g.entry})
    def now(I):
        m = I.read(Loc(g.al.cell, (('f', 'map_ws_conn_counts_'),))); k = TermV(g.me, 'str'); o = TermV(z3.Int('other.name'), 'str'); z = lambda m, k: z3.If(B(m.has(k)), m.val(k).t, 0)
        return I.read(g.al).f['ws_conn_count_global_'].t, z(m, k), z(m, o), (B(m.has(o)) == H(z3.Int('other.name')))
    g.now = now; g.oth = z3.If(H(z3.Int('other.name')), C(z3.Int('other.name')), 0); u.assume(z3.Int('other.name') != g.me); return g
def isptr(I, f): return I.T[f['params'][0]['t']]['k'] == 'ptr'
def others(u, g, x): u.prove('the counts of other origins are untouched', And(x[2] == g.oth, x[3]))
def u_wsreg(u):
    g = wsworld(u); r = u.call(AL + 'register_ws_conn_for_origin', [g.al, g.ptr], isptr).t; u.cover('returns'); x = g.now(u.I); over = Or(g.n >= g.maxg, g.mine >= g.maxo)
    u.prove('refused exactly when the origin or the server is at its limit', B(r == z3.If(Not(g.en), NOERR, z3.If(g.bad, BADORIGIN, z3.If(over, PEAK, NOERR)))))
    adm = And(g.en, Not(g.bad), Not(over)); u.prove('an admitted connection counts once for the origin and for the server', Imp(adm, And(x[0] == g.n + 1, x[1] == g.mine + 1))); u.prove('a refused one does not count', Imp(Not(adm), And(x[0] == g.n, x[1] == g.mine))); others(u, g, x)
def u_wsunreg(u):
    g = wsworld(u); u.assume(Imp(g.H(g.me), And(g.C(g.me) >= 1, g.n >= g.C(g.me)))); r = B(u.call(AL + 'unregister_ws_conn_for_origin', [g.al, g.ptr], isptr)); u.cover('returns'); x = g.now(u.I); have = And(Not(g.bad), g.H(g.me))
    u.prove('a registered connection is taken off both counts', Imp(have, And(x[0] == g.n - 1, x[1] == g.mine - 1))); u.prove('nothing else changes the counts', Imp(Not(have), And(x[0] == g.n, x[1] == g.mine))); u.prove('reports whether there was one', r == Or(have, Not(g.en))); others(u, g, x)
def u_wsban(u):
    g = wsworld(u); u.assume(Imp(g.H(g.me), g.C(g.me) >= 1)); r = B(u.call(AL + 'is_ban_ws_conn_for_origin', [g.al, g.ptr], isptr)); u.cover('returns'); x = g.now(u.I)
    u.prove('a further connection of a connected origin would be refused', r == And(g.en, Or(g.bad, g.n >= g.maxg, And(g.H(g.me), g.mine >= g.maxo)))); u.prove('asking changes nothing', And(x[0] == g.n, x[1] == g.mine)); others(u, g, x)
# ------------------------------------------------------------ limits and rules
def u_limits(u):
    k = u.p.choose(2); fn, fld = [('max_calls_per_minute', 'max_calls_per_minute_'), ('max_calls_per_second', 'max_calls_per_second_')][k]; e = entry(u, 'rule'); I = u.I
    H = z3.Function('method.known', INT, z3.BoolSort()); V = [z3.Function('method.' + f, INT, INT) for f in ('second', 'minute')]; t = lambda q: (I.val(q).t if not isc(I.val(q).t) else z3.IntVal(I.val(q).t)); i = z3.Int('i!v'); u.assume(z3.ForAll([i], And(*[And(f(i) >= 0, f(i) < 1 << 64) for f in V])))
    rt = next(x for x in u.T if x['k'] == 'rec' and x['qn'] == N + 'origin_entry_setting' and 'rec' in x); ft = next(fd['t'] for fd in I.all_fields(rt) if fd['n'] == 'map_custom_method_settings_'); ar = u.T[ft]['args']
    m = MapV(lambda q: H(t(q)), lambda q: RecV(N + 'custom_method_setting', {'max_calls_per_second_': IntV(V[0](t(q)), 64, False), 'max_calls_per_minute_': IntV(V[1](t(q)), 64, False)}), ar[0]['t'], ar[1]['t'], 'map', None); I.write(Loc(e.cell, (('f', 'map_custom_method_settings_'),)), m)
    oc, s = bytes_in(u, 'method', maxlen=64, signed=True, kind='str'); u.assume(s.n >= 1); case = u.p.choose(2); ptr = PtrV(oc, 0) if case == 0 else NULL; me = z3.Int('method.name'); I.contracts = {'std::basic_string::(ctor)': lambda I, ex, fr, a: TermV(me, 'str')}
    r = u.call(OE + fn, [e, ptr]).t; u.cover('returns'); base = I.read(e).f[fld].t; none = z3.BoolVal(True) if case else s.get(0).t == 0; v = V[1 - k](me)
    u.prove('the limit of the rule, raised by the limit of the method', r == z3.If(And(Not(none), H(me), v > base), v, base))
def u_find(u):
    I = u.I; n = z3.Int('rules'); u.assume(And(n >= 0, n < 1 << 40)); MT = z3.Function('ruleMatches', INT, z3.BoolSort()); RID = 'max_ws_conn_'
    ent = lambda i: RecV(N + 'origin_entry_setting', {RID: IntV(i if not isc(i) else z3.IntVal(i), 64, False), 'origin_wildcards_': OpaqueV('w'), 'max_calls_per_second_': IntV(0, 64, False), 'max_calls_per_minute_': IntV(0, 64, False), 'ban_peak_': IntV(0, 64, True), 'ban_lengthy_': IntV(0, 64, True), 'map_custom_method_settings_': OpaqueV('m')})
    st = I.new(RecV(N + 'settings', {'enabled_': True, 'origins_': SeqV(n, ent, vt(u, 'origin_entry_setting'), 'vec'), 'global_limit_': OpaqueV('g')}), 'settings'); oc, s = bytes_in(u, 'origin name', maxlen=64, signed=True, kind='str'); u.assume(s.n >= 1); case = u.p.choose(2); ptr = PtrV(oc, 0) if case == 0 else NULL; start = int_in(u, 'start', 64); NPOS = (1 << 64) - 1; u.assume(Or(start.t == NPOS, start.t < 1 << 41))
    def match(I, e, fr, a):
        I.p.prove('the origin asked for', I.ptreq(I.val(a[1]), ptr) if isinstance(I.val(a[1]), PtrV) else z3.BoolVal(False)); return MT(I.read(a[0]).f[RID].t)
    I.contracts = {OE + 'match_origin': match}; q = z3.Int('q!r'); s0 = z3.If(start.t == NPOS, 0, start.t + 1)
    def stt(I, env, k): return [(env('i'), IntV(s0 + k, 64, False))]
    def inv(I, env, k): kk = z3.IntVal(k) if isc(k) else k; return [('no rule so far matches', z3.ForAll([q], Imp(And(s0 <= q, q < s0 + kk), Not(MT(q))))), ('inside the rules', Or(kk == 0, s0 + kk <= n))]
    loop(u, ST + 'find_origin_entry_setting_match', LoopSpec(inv, stt, name='rules'), 0)
    r = u.call(ST + 'find_origin_entry_setting_match', [st, ptr, start], isptr).t; u.cover('returns'); bad = z3.BoolVal(True) if case else s.get(0).t == 0
    u.prove('the first matching rule', Imp(r != NPOS, And(Not(bad), r >= s0, r < n, MT(r), z3.ForAll([q], Imp(And(s0 <= q, q < r), Not(MT(q)))))))
    u.prove('none only when no rule matches', Imp(And(r == NPOS, Not(bad)), z3.ForAll([q], Imp(And(s0 <= q, q < n), Not(MT(q))))))
def u_matchorigin(u):
    I = u.I; n = z3.Int('wildcards'); u.assume(And(n >= 0, n < 1 << 40)); W = z3.Function('wildcardMatches', INT, z3.BoolSort()); rt = next(x for x in u.T if x['k'] == 'rec' and x['qn'] == N + 'origin_entry_setting' and 'rec' in x); ft = next(fd['t'] for fd in I.all_fields(rt) if fd['n'] == 'origin_wildcards_')
    e = I.new(RecV(N + 'origin_entry_setting', {'origin_wildcards_': SeqV(n, lambda i: TermV(i if not isc(i) else z3.IntVal(i), 'wild'), u.T[ft]['args'][0]['t'], 'vec')}), 'rule'); oc, s = bytes_in(u, 'origin name', maxlen=64, signed=True, kind='str'); u.assume(s.n >= 1); case = u.p.choose(2); ptr = PtrV(oc, 0) if case == 0 else NULL
    def wc(I, ex, fr, a): I.p.prove('the origin asked for', I.ptreq(I.val(a[1]), ptr) if isinstance(I.val(a[1]), PtrV) else z3.BoolVal(False)); return W(I.val(a[0]).t)
    I.contracts = {'skutils::tools::wildcmp': wc, 'std::basic_string::c_str': lambda I, ex, fr, a: I.val(a[0])}; q = z3.Int('q!o')
    def inv(I, env, k): kk = z3.IntVal(k) if isc(k) else k; return [('no wildcard so far matches', z3.ForAll([q], Imp(And(0 <= q, q < kk), Not(W(q)))))]
    loop(u, OE + 'match_origin', LoopSpec(inv, name='wildcards'), 0)
    r = B(u.call(OE + 'match_origin', [e, ptr], isptr)); u.cover('returns'); bad = z3.BoolVal(True) if case else s.get(0).t == 0; u.prove('matches exactly when one of its wildcards does', r == And(Not(bad), z3.Exists([q], And(0 <= q, q < n, W(q)))))
UNITS = [dict(S, name='unddos.count_to_past', body=u_count, cfg={'contracts': C1}), dict(S, name='unddos.check_ban', body=u_checkban, cfg={'contracts': C0}), dict(S, name='unddos.clear_ban', body=u_clearban), dict(S, name='unddos.unload-time', body=u_unload, cfg={'contracts': C0}), dict(S, name='unddos.unload-count', body=u_unloadn), dict(S, name='unddos.register-call', body=u_register), dict(S, name='unddos.unload-all', body=u_unload_all), dict(S, name='unddos.ws-register', body=u_wsreg), dict(S, name='unddos.ws-unregister', body=u_wsunreg), dict(S, name='unddos.ws-ban', body=u_wsban), dict(S, name='unddos.limits', body=u_limits), dict(S, name='unddos.find-rule', body=u_find), dict(S, name='unddos.match-origin', body=u_matchorigin)]
if __name__ == '__main__': main(UNITS)
