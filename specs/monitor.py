from common import *

SRC = 'libethereum/InstanceMonitor.cpp'
SRC2 = 'libdevcore/StatusAndControl.cpp'
And, Or, Not = z3.And, z3.Or, z3.Not
IM = 'InstanceMonitor::'
P = z3.Function('joined', z3.IntSort(), z3.IntSort(), z3.IntSort())
ROT = z3.Int('rotationFile'); NAME = z3.Int('rotation.json')
class G:
    """the file system as far as the monitor is concerned: does the schedule file exist, is it readable, what does it say"""
def json(kind, num=0, ts=None): return RecV('nlohmann::basic_json', {'kind': IntV(kind, 8, False), 'num': num if isinstance(num, IntV) else IntV(num, 64, False), 'ts': ts if ts is not None else RecV('nlohmann::basic_json', {'kind': IntV(0, 8, False), 'num': IntV(0, 64, False)})})   # kind: 0 absent, 1 object, 2 number
def world(u, strict=True):
    g = G(); g.ex = z3.Bool('file exists'); g.ok = z3.Bool('file readable'); g.ts = int_in(u, 'stored timestamp', 64); g.rep = []; g.ops = []
    for n in ('file exists', 'file readable'): u.p.inputs[n] = lambda m, n=n: str(m.eval(z3.Bool(n), True))
    V = lambda I, x: I.val(x)
    def pth(I, x): return I.val(x).t
    def own(I, x): I.p.prove('only the schedule file is touched', pth(I, x) == ROT)
    def opened(I, e, fr, a): own(I, a[0]); return RecV('stream', {'rd': True})
    def trunc(I, e, fr, a): own(I, a[0]); g.ops.append('w'); g.ex = True; g.ok = False; return RecV('stream', {'rd': False})
    def parse(I, e, fr, a):
        if I.p.branch(And(B(g.ex), Or(B(g.ok), I.fresh_bool('well-formed without a timestamp')))): 
            return json(1, 0, RecV('nlohmann::basic_json', {'kind': IntV(If(B(g.ok), 2, 0), 8, False), 'num': g.ts}))
        raise CxxThrow('nlohmann::detail::parse_error')
    def key(I, x):
        v = I.val(x)
        if isinstance(v, PtrV): v = I.read(v.loc)
        s = bytes(v.get(i).t for i in range(v.n)); return s.rstrip(b'\0')
    def at(I, e, fr, a):
        l = a[0]; own_ = key(I, a[1]) == b'timestamp'
        if not own_: return I.new(json(0))
        return Loc(l.cell, l.path + (('f', 'ts'),))
    def asg(I, e, fr, a): I.write(a[0], V(I, a[1])); return a[0]
    def get(I, e, fr, a):
        v = V(I, a[0])
        if I.p.branch(v.f['kind'].t == 2): return v.f['num']
        raise CxxThrow('nlohmann::detail::type_error')
    def out(I, e, fr, a):
        v = V(I, a[1]); t = v.f['ts']; I.p.prove('an object with the timestamp as a number is written', And(v.f['kind'].t == 1, t.f['kind'].t == 2)); g.ok = True; g.ts = t.f['num']; return a[0]
    def jctor(I, e, fr, a):
        if not a: return json(0)
        v = V(I, a[0])
        return json(2, IntV(v.t, 64, False)) if isinstance(v, IntV) else v
    def rm(I, e, fr, a): own(I, a[0]); g.ops.append('r'); r = g.ex; g.ex = False; return r
    def status(I, e, fr, a): g.rep.append((V(I, a[1]), I.tobool(V(I, a[2])) if isinstance(V(I, a[2]), IntV) else V(I, a[2]), g.ex)); return OpaqueV('void')
    g.con = {'boost::filesystem::exists': lambda I, e, fr, a: (own(I, a[0]), g.ex)[1], 'boost::filesystem::remove': rm, 'boost::filesystem::path::string': lambda I, e, fr, a: V(I, a[0]), 'boost::filesystem::operator/': lambda I, e, fr, a: TermV(P(pth(I, a[0]), pth(I, a[1])), 'path'),
        'std::basic_ifstream::(ctor)': opened, 'std::basic_ofstream::(ctor)': trunc, 'nlohmann::basic_json::parse': parse, 'nlohmann::basic_json::object': lambda I, e, fr, a: json(1), 'nlohmann::basic_json::(ctor)': jctor, 'nlohmann::basic_json::operator[]': at, 'nlohmann::basic_json::at': at, 'nlohmann::basic_json::operator=': asg, 'nlohmann::basic_json::get': get, 'nlohmann::operator<<': out,
        'nlohmann::basic_json::(conv)': get, 'nlohmann::basic_json::dump': lambda I, e, fr, a: V(I, a[0]), 'std::throw_with_nested': lambda I, e, fr, a: (_ for _ in ()).throw(CxxThrow('std::runtime_error')), IM + 'InvalidRotationInfoFileException::(ctor)': lambda I, e, fr, a: RecV('InstanceMonitor::InvalidRotationInfoFileException', {}),
        'StatusAndControl::setExitState': status}
    u.I.contracts = dict(g.con)
    u.I.cfg['globals'] = {IM + 'rotation_info_file_name': lambda I, gd: TermV(NAME, 'path')}
    st = u.p.choose(2)
    g.has = not st
    g.mon = u.I.new(RecV('InstanceMonitor', {'m_rotationInfoFilePath': TermV(ROT, 'path'), 'm_statusAndControl': PtrV(u.I.new(RecV('StatusAndControl', {}))) if g.has else NULL, 'm_infoLogger': OpaqueV('logger'), 'm_errorLogger': OpaqueV('logger')}), 'monitor')
    return g
def reported(u, g, v):
    if g.has: u.prove('the exit condition %s is reported' % v, And(len(g.rep) == 1, *[And(B(x[1]) == v, x[0].t == 3) for x in g.rep]))
    else: u.prove('nothing reported without a status object', len(g.rep) == 0)
S = dict(src=SRC, want=['InstanceMonitor::*'], mode='int')
def u_time(u):
    g = world(u); ex, ok, ts = g.ex, g.ok, g.ts.t; b = int_in(u, 'block timestamp', 64)
    x, r = u.throws(u.call, IM + 'isTimeToRotate', [g.mon, b]); u.cover('returns')
    u.prove('asking never fails', x is None)
    if x is None: u.prove('time to rotate exactly at or after a readable schedule', B(r) == And(ex, ok, ts <= b.t))
    u.prove('asking changes nothing', not g.ops and not g.rep)
def u_ts(u):
    g = world(u); ex, ok, ts = g.ex, g.ok, g.ts.t
    x, r = u.throws(u.call, IM + 'rotationTimestamp', [g.mon]); u.cover('returns')
    if x: u.prove('fails only without a readable schedule', Not(And(ex, ok))); u.prove('fails with its own exception', x == IM + 'InvalidRotationInfoFileException')
    else: u.prove('the stored timestamp', And(ex, ok, r.t == ts))
def u_init(u):
    g = world(u); t = int_in(u, 'finish timestamp', 64); b = int_in(u, 'block timestamp', 64)
    u.call(IM + 'initRotationParams', [g.mon, t]); u.cover('returns')
    u.prove('the schedule exists, is readable and says so', And(B(g.ex), B(g.ok), g.ts.t == t.t)); u.prove('nothing reported', not g.rep)
    r = u.call(IM + 'isTimeToRotate', [g.mon, b]); u.prove('time to rotate from then on exactly at or after it', B(r) == (b.t >= t.t))
def u_prep(u):
    g = world(u); ex0 = g.ex; b = int_in(u, 'block timestamp', 64)
    u.call(IM + 'prepareRotation', [g.mon]); u.cover('returns'); u.prove('schedule removed', Not(B(g.ex))); reported(u, g, True)
    r = u.call(IM + 'isTimeToRotate', [g.mon, b]); u.prove('never time to rotate from then on', Not(B(r)))
def u_ctor(u):
    g = world(u); d = z3.Int('dir'); ex, ok, ts = g.ex, g.ok, g.ts.t
    l = u.construct('InstanceMonitor::(ctor)', [u.I.new(TermV(d, 'path')), u.I.read(g.mon).f['m_statusAndControl']]); u.cover('returns')
    v = u.I.val(l); u.prove('the schedule is rotation.json in the directory given', v.f['m_rotationInfoFilePath'].t == P(d, NAME)); reported(u, g, False)
    u.prove('a schedule already there is kept', not g.ops)
UNITS = [dict(S, name='monitor.isTimeToRotate', body=u_time), dict(S, name='monitor.rotationTimestamp', body=u_ts), dict(S, name='monitor.initRotationParams', body=u_init), dict(S, name='monitor.prepareRotation', body=u_prep), dict(S, name='monitor.ctor', body=u_ctor)]
# status flags: arbitrary flags before, one set, all flags after
SAC = 'StatusAndControl::'
S2 = dict(src=SRC2, want=['StatusAndControl::*'], mode='int')
def flags(u, nm):
    hs = z3.Function(nm + '.set', z3.IntSort(), z3.BoolSort()); vs = z3.Function(nm, z3.IntSort(), z3.BoolSort()); rt = next(t for t in u.T if t['k'] == 'rec' and t['qn'] == 'StatusAndControl' and 'rec' in t)
    ft = next(fd['t'] for fd in u.I.all_fields(rt) if fd['n'] == nm); a = u.T[ft]['args']
    return hs, vs, MapV(lambda k: hs(u.I.val(k).t if not isinstance(u.I.val(k).t, int) else z3.IntVal(u.I.val(k).t)), lambda k: vs(u.I.val(k).t if not isinstance(u.I.val(k).t, int) else z3.IntVal(u.I.val(k).t)), a[0]['t'], a[1]['t'], 'map', None)
def sobj(u):
    e = flags(u, 'exitState'); s = flags(u, 'subsystemRunning'); ch = []
    u.I.contracts = {SAC + 'on_change': lambda I, ex, fr, a: (ch.append(I.read(a[0])), OpaqueV('void'))[1]}
    names = lambda *x: u.I.seq_of([OpaqueV('name') for _ in x])
    return u.I.new(RecV('StatusAndControl', {'subsystemRunning': s[2], 'exitState': e[2], 'consensusRunningState': int_in(u, 'state', 32), 'subsystemString': u.I.seq_of([OpaqueV('s')] * 6), 'exitStateString': u.I.seq_of([OpaqueV('s')] * 4), 'consensusRunningStateString': u.I.seq_of([OpaqueV('s')] * 4)}), 'status'), e, s, ch
def u_flag(setter, getter, own, oget, other, nmax):
    def body(u):
        l, e, s, ch = sobj(u); mine, oth = (e, s) if own == 'exitState' else (s, e); k = u.p.choose(nmax); q = u.p.choose(nmax); v = z3.Bool('value')
        u.call(SAC + setter, [l, IntV(k, 32, False), v]); u.cover('returns')
        u.prove('the change is announced once', len(ch) == 1)
        g = u.call(SAC + getter, [l, IntV(q, 32, False)]); u.prove('flag %d reads as set, the others as before' % q, B(g) == (v if q == k else And(mine[0](q), mine[1](q))))
        if ch:
            l2 = u.I.new(ch[0]); g = u.call(SAC + getter, [l2, IntV(k, 32, False)]); u.prove('announced with the new value', B(g) == v)
        o = u.call(SAC + oget, [l, IntV(q % other, 32, False)]); u.prove('the other kind of flag is as before', B(o) == And(oth[0](q % other), oth[1](q % other)))
    return body
UNITS += [dict(S2, name='status.exitState', body=u_flag('setExitState', 'getExitState', 'exitState', 'isSubsystemRunning', 6, 4)), dict(S2, name='status.subsystem', body=u_flag('setSubsystemRunning', 'isSubsystemRunning', 'subsystemRunning', 'getExitState', 4, 6))]
if __name__ == '__main__': main(UNITS)
