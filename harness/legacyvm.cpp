// C21: programs run by LegacyVM (the dispatch variant the product uses) against an independent interpreter written from the definition of the instructions
#include "h.hpp"
#include <libdevcore/SHA3.h>
#include <libethcore/BlockHeader.h>
#include <libethcore/EVMSchedule.h>
#include <libethereum/LastBlockHashesFace.h>
#include <libevm/LegacyVM.h>
namespace dev { extern bytes const NullBytes; bytes const NullBytes; }
using namespace dev; using namespace dev::eth;
typedef boost::multiprecision::cpp_int Z;
struct NoHashes : LastBlockHashesFace { h256s precedingHashes(h256 const&) const override { return h256s(256); } void clear() override {} };
// the world outside the contract, the same answers for both interpreters; everything it is told goes into a journal
struct Outside {
    uint64_t salt = 0; EVMSchedule const* sch = nullptr; std::map<u256, u256> st, orig; u256 balance; std::string journal; int64_t refunds = 0; bytes other; bool depthy = false;
    uint64_t mix(std::string const& w, Z const& x) const { uint64_t h = salt * 0x9E3779B97F4A7C15ull + 7; for (char c : w) h = (h ^ (uint8_t)c) * 1099511628211ull; for (char c : x.str()) h = (h ^ (uint8_t)c) * 1099511628211ull; return h ^ (h >> 29); }
    void say(std::string const& s) { journal += s + "\n"; }
    u256 load(u256 const& k) { auto i = st.find(k); return i == st.end() ? u256(0) : i->second; }
    u256 bal(Address const& a, Address const& me) { return a == me ? balance : u256(mix("bal", Z((u160)a)) % 5); }
    bool exists(Address const& a) { return mix("ex", Z((u160)a)) % 2; }
    struct Answer { bool ok; uint64_t left; bytes out; Address where; };
    Answer answer(std::string const& q, Z const& gas) { auto m = mix(q, gas); Answer a; a.ok = m & 1; a.left = (uint64_t)(gas - gas * (m >> 8 & 3) / 4); a.out.assign(m >> 16 & 63, (uint8_t)(m >> 24)); for (size_t i = 0; i < a.out.size(); ++i) a.out[i] += i; a.where = right160(sha3(std::to_string(m))); return a; }
};
static std::string hs(bytesConstRef b) { return h::hex(b.data(), b.size()); }
template <class T> static std::string str(T const& x) { std::ostringstream o; o << x; return o.str(); }
struct Ext : ExtVMFace {
    Outside& o;
    Ext(Outside& out, EnvInfo const& e, Address me, Address c, Address og, u256 v, u256 p, bytesConstRef d, bytes code, unsigned depth, bool st) : ExtVMFace(e, me, c, og, v, p, d, std::move(code), h256(), 0, depth, false, st), o(out) {}
    u256 store(u256 k) override { return o.load(k); }
    void setStore(u256 k, u256 v) override { o.say("set " + str(k) + "=" + str(v)); o.st[k] = v; }
    u256 originalStorageValue(u256 const& k) override { auto i = o.orig.find(k); return i == o.orig.end() ? u256(0) : i->second; }
    u256 balance(Address a) override { return o.bal(a, myAddress); }
    bytes const& codeAt(Address) override { return o.other; }
    size_t codeSizeAt(Address a) override { return o.mix("cs", Z((u160)a)) % 1000; }
    h256 codeHashAt(Address a) override { return sha3(a.hex()); }
    bool exists(Address a) override { return o.exists(a); }
    void suicide(Address a) override { o.say("suicide " + a.hex()); }
    void log(h256s&& t, bytesConstRef d) override { std::string s = "log"; for (auto& x : t) s += " " + x.hex(); o.say(s + " : " + hs(d)); }
    h256 blockHash(u256 n) override { return sha3(str(n)); }
    EVMSchedule const& evmSchedule() const override { return *o.sch; }
    CreateResult create(u256 v, u256& g, bytesConstRef d, Instruction op, u256 salt, OnOpFunc const&) override { std::string q = "create " + str((int)op) + " v=" + str(v) + " gas=" + str(g) + " salt=" + str(salt) + " code=" + hs(d); o.say(q); auto a = o.answer(q, Z(g)); g = a.left; size_t n = a.out.size(); return CreateResult(EVMC_SUCCESS, n ? owning_bytes_ref(std::move(a.out), 0, n) : owning_bytes_ref(), a.where); }
    CallResult call(CallParameters& p) override { std::string q = "call from=" + p.senderAddress.hex() + " code=" + p.codeAddress.hex() + " to=" + p.receiveAddress.hex() + " v=" + str(p.valueTransfer) + " shown=" + str(p.apparentValue) + " gas=" + str(p.gas) + " static=" + str(p.staticCall) + " data=" + hs(p.data); o.say(q); auto a = o.answer(q, Z(p.gas)); p.gas = a.left; size_t n = a.out.size(); return CallResult(a.ok ? EVMC_SUCCESS : EVMC_REVERT, n ? owning_bytes_ref(std::move(a.out), 0, n) : owning_bytes_ref()); }
};
// ------------------------------------------------------------ the definition
struct Stop { std::string how; };
struct Mini {
    Outside& o; Ext& e; Z gas; bytes const& code; std::vector<Z> s; bytes mem, ret, out; size_t pc = 0; uint64_t n = 0; Z const M = Z(1) << 256;
    Mini(Outside& o, Ext& e, uint64_t g) : o(o), e(e), gas(g), code(e.code) {}
    [[noreturn]] void fail(std::string const& w) { throw Stop{w}; }
    void pay(Z const& c) { if (gas < c) fail("gas"); gas -= c; }
    Z sg(Z const& x) { return x >> 255 == 1 ? Z(x - M) : x; }
    Z un(Z x) { x %= M; return x < 0 ? Z(x + M) : x; }
    Z price(Z const& w) { return 3 * w + w * w / 512; }
    Z grow(Z const& off, Z const& len) { return len == 0 ? Z(0) : Z((off + len + 31) / 32); }
    Z memcost(Z const& w) { Z old = mem.size() / 32; return w > old ? Z(price(w) - price(old)) : Z(0); }
    void extend(Z const& w) { if (w * 32 > mem.size()) mem.resize((size_t)(w * 32)); }
    Z word(bytes const& b, Z const& at) { Z r = 0; for (int i = 0; i < 32; ++i) r = r * 256 + (at + i < b.size() ? b[(size_t)(at + i)] : 0); return r; }
    bytes part(Z const& off, Z const& len) { if (len == 0) return {}; return bytes(mem.begin() + (size_t)off, mem.begin() + (size_t)(off + len)); }
    Address ad(Z const& x) { return Address((u160)(x % (Z(1) << 160))); }
    bool dest(Z const& d) { if (d >= code.size()) return false; size_t t = (size_t)d, i = 0; while (i < t) i += code[i] >= 0x60 && code[i] <= 0x7f ? code[i] - 0x5e : 1; return i == t && code[t] == 0x5b; }
    void run() { for (;;) if (!step()) return; }
    bool step() {
        auto const& c = *o.sch; uint8_t op = pc < code.size() ? code[pc] : 0; ++n;
        int in = 0, put = 0, tier = -1; bool known = true;   // taken, put, fixed price tier (-1: special)
        auto d = [&](int a, int b, int t) { in = a; put = b; tier = t; };
        if (op >= 0x60 && op <= 0x7f) d(0, 1, 2); else if (op >= 0x80 && op <= 0x8f) d(op - 0x7f, op - 0x7e, 2); else if (op >= 0x90 && op <= 0x9f) d(op - 0x8e, op - 0x8e, 2); else if (op >= 0xa0 && op <= 0xa4) d(op - 0x9e, 0, -1);
        else switch (op) {
            case 0: d(0, 0, 0); break; case 1: case 3: d(2, 1, 2); break; case 2: case 4: case 5: case 6: case 7: d(2, 1, 3); break; case 8: case 9: d(3, 1, 4); break; case 0x0a: d(2, 1, -1); break; case 0x0b: d(2, 1, 3); break;
            case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x16: case 0x17: case 0x18: case 0x1a: case 0x1b: case 0x1c: case 0x1d: d(2, 1, 2); break; case 0x15: case 0x19: d(1, 1, 2); break;
            case 0x20: d(2, 1, -1); break; case 0x30: case 0x32: case 0x33: case 0x34: case 0x36: case 0x38: case 0x3a: case 0x3d: d(0, 1, 1); break; case 0x31: case 0x3b: case 0x3f: case 0x40: d(1, 1, -1); break; case 0x35: d(1, 1, 2); break; case 0x37: case 0x39: case 0x3e: d(3, 0, 2); break; case 0x3c: d(4, 0, -1); break;
            case 0x41: case 0x42: case 0x43: case 0x44: case 0x45: case 0x46: d(0, 1, 1); break; case 0x47: d(0, 1, 3); break; case 0x50: d(1, 0, 1); break; case 0x51: d(1, 1, 2); break; case 0x52: case 0x53: d(2, 0, 2); break; case 0x54: d(1, 1, -1); break; case 0x55: d(2, 0, -1); break; case 0x56: d(1, 0, 4); break; case 0x57: d(2, 0, 5); break;
            case 0x58: case 0x59: case 0x5a: case 0x5f: d(0, 1, 1); break; case 0x5b: d(0, 0, -1); break; case 0xf0: d(3, 1, -1); break; case 0xf1: case 0xf2: d(7, 1, -1); break; case 0xf3: case 0xfd: d(2, 0, 0); break; case 0xf4: case 0xfa: d(6, 1, -1); break; case 0xf5: d(4, 1, -1); break; case 0xff: d(1, 0, -1); break;
            default: known = false;
        }
        if (!known) fail("bad instruction");
        if ((int)s.size() < in) fail("stack"); if ((int)s.size() - in + put > 1024) fail("stack");
        std::vector<Z> a; for (int i = 0; i < in; ++i) a.push_back(s[s.size() - 1 - i]);
        Z base = tier < 0 ? Z(0) : Z(c.tierStepGas[tier]); auto need = [&](bool b) { if (!b) fail("bad instruction"); }; auto writes = [&] { if (e.staticCall) fail("static"); };
        auto res = [&](std::initializer_list<Z> r) { s.resize(s.size() - in); for (auto& x : r) s.push_back(x); ++pc; return true; };
        auto cp = [&](Z const& fee, Z const& to, Z const& from, Z const& len, bytesConstRef src) { Z w = grow(to, len); pay(fee + memcost(w) + c.copyGas * ((len + 31) / 32)); extend(w); for (Z i = 0; i < len; ++i) mem[(size_t)(to + i)] = from + i < src.size() ? src[(size_t)(from + i)] : 0; return res({}); };
        if (op >= 0x60 && op <= 0x7f) { pay(base); Z v = 0; for (int i = 1; i <= op - 0x5f; ++i) v = v * 256 + (pc + i < code.size() ? code[pc + i] : 0); s.push_back(v); pc += op - 0x5e; return true; }
        if (op >= 0x80 && op <= 0x8f) { pay(base); s.push_back(Z(a.back())); ++pc; return true; }
        if (op >= 0x90 && op <= 0x9f) { pay(base); std::swap(s[s.size() - 1], s[s.size() - in]); ++pc; return true; }
        if (op >= 0xa0 && op <= 0xa4) { writes(); Z w = grow(a[0], a[1]); pay(c.logGas + Z(c.logTopicGas) * (op - 0xa0) + c.logDataGas * a[1] + memcost(w)); extend(w); bytes b = part(a[0], a[1]); std::string t = "log"; for (int i = 2; i < in; ++i) t += " " + h256((u256)a[i]).hex(); o.say(t + " : " + hs(bytesConstRef(b.data(), b.size()))); return res({}); }
        switch (op) {
        case 0: pay(base); out.clear(); return false;
        case 1: pay(base); return res({un(a[0] + a[1])}); case 2: pay(base); return res({un(a[0] * a[1])}); case 3: pay(base); return res({un(a[0] - a[1])});
        case 4: pay(base); return res({a[1] == 0 ? Z(0) : Z(a[0] / a[1])}); case 5: pay(base); return res({a[1] == 0 ? Z(0) : un(sg(a[0]) / sg(a[1]))}); case 6: pay(base); return res({a[1] == 0 ? Z(0) : Z(a[0] % a[1])}); case 7: pay(base); return res({a[1] == 0 ? Z(0) : un(sg(a[0]) % sg(a[1]))});
        case 8: pay(base); return res({a[2] == 0 ? Z(0) : Z((a[0] + a[1]) % a[2])}); case 9: pay(base); return res({a[2] == 0 ? Z(0) : Z(a[0] * a[1] % a[2])});
        case 0x0a: { int nb = 0; for (Z x = a[1]; x > 0; x >>= 8) ++nb; pay(c.expGas + Z(c.expByteGas) * nb); Z r = 1; for (int i = 255; i >= 0; --i) { r = r * r % M; if (bit_test(a[1], i)) r = r * a[0] % M; } return res({r}); }
        case 0x0b: { pay(base); Z r = a[1]; if (a[0] < 31) { unsigned b = (unsigned)a[0] * 8 + 8; r %= Z(1) << b; if (bit_test(r, b - 1)) r += M - (Z(1) << b); } return res({r}); }
        case 0x10: pay(base); return res({Z(a[0] < a[1])}); case 0x11: pay(base); return res({Z(a[0] > a[1])}); case 0x12: pay(base); return res({Z(sg(a[0]) < sg(a[1]))}); case 0x13: pay(base); return res({Z(sg(a[0]) > sg(a[1]))}); case 0x14: pay(base); return res({Z(a[0] == a[1])}); case 0x15: pay(base); return res({Z(a[0] == 0)});
        case 0x16: pay(base); return res({a[0] & a[1]}); case 0x17: pay(base); return res({a[0] | a[1]}); case 0x18: pay(base); return res({a[0] ^ a[1]}); case 0x19: pay(base); return res({M - 1 - a[0]}); case 0x1a: pay(base); return res({a[0] < 32 ? Z(a[1] >> (8 * (31 - (unsigned)a[0])) & 255) : Z(0)});
        case 0x1b: need(c.haveBitwiseShifting); pay(base); return res({a[0] > 255 ? Z(0) : un(a[1] << (unsigned)a[0])}); case 0x1c: need(c.haveBitwiseShifting); pay(base); return res({a[0] > 255 ? Z(0) : Z(a[1] >> (unsigned)a[0])});
        case 0x1d: { need(c.haveBitwiseShifting); pay(base); Z x = sg(a[1]), p = Z(1) << (a[0] > 256 ? 256 : (unsigned)a[0]); Z q = x / p; if (q * p > x) --q; return res({un(q)}); }
        case 0x20: { Z w = grow(a[0], a[1]); pay(c.sha3Gas + c.sha3WordGas * ((a[1] + 31) / 32) + memcost(w)); extend(w); bytes b = part(a[0], a[1]); return res({Z((u256)sha3(b))}); }
        case 0x30: pay(base); return res({Z((u160)e.myAddress)}); case 0x31: pay(c.balanceGas); return res({Z(o.bal(ad(a[0]), e.myAddress))}); case 0x32: pay(base); return res({Z((u160)e.origin)}); case 0x33: pay(base); return res({Z((u160)e.caller)}); case 0x34: pay(base); return res({Z(e.value)}); case 0x35: pay(base); return res({word(e.data.toBytes(), a[0])}); case 0x36: pay(base); return res({Z(e.data.size())});
        case 0x37: return cp(base, a[0], a[1], a[2], e.data); case 0x38: pay(base); return res({Z(code.size())}); case 0x39: return cp(base, a[0], a[1], a[2], bytesConstRef(code.data(), code.size())); case 0x3a: pay(base); return res({Z(e.gasPrice)}); case 0x3b: pay(c.extcodesizeGas); return res({Z(e.codeSizeAt(ad(a[0])))}); case 0x3c: return cp(c.extcodecopyGas, a[1], a[2], a[3], bytesConstRef(o.other.data(), o.other.size()));
        case 0x3d: need(c.haveReturnData); pay(base); return res({Z(ret.size())}); case 0x3e: need(c.haveReturnData); if (a[1] + a[2] > ret.size()) fail("return data"); return cp(base, a[0], a[1], a[2], bytesConstRef(ret.data(), ret.size())); case 0x3f: need(c.haveExtcodehash); pay(c.extcodehashGas); return res({Z((u256)e.codeHashAt(ad(a[0])))});
        case 0x40: pay(c.blockhashGas); return res({Z((u256)e.blockHash((u256)a[0]))}); case 0x41: pay(base); return res({Z((u160)e.envInfo().author())}); case 0x42: pay(base); return res({Z(e.envInfo().timestamp())}); case 0x43: pay(base); return res({Z(e.envInfo().number())}); case 0x44: pay(base); return res({Z(e.envInfo().difficulty())}); case 0x45: pay(base); return res({Z(e.envInfo().gasLimit())});
        case 0x46: need(c.haveChainID); pay(base); return res({Z(e.envInfo().chainID())}); case 0x47: need(c.haveSelfbalance); pay(base); return res({Z(o.balance)});
        case 0x50: pay(base); return res({}); case 0x51: { Z w = grow(a[0], 32); pay(base + memcost(w)); extend(w); return res({word(mem, a[0])}); }
        case 0x52: { Z w = grow(a[0], 32); pay(base + memcost(w)); extend(w); for (int i = 0; i < 32; ++i) mem[(size_t)a[0] + i] = (uint8_t)(a[1] >> (8 * (31 - i)) & 255); return res({}); } case 0x53: { Z w = grow(a[0], 1); pay(base + memcost(w)); extend(w); mem[(size_t)a[0]] = (uint8_t)(a[1] & 255); return res({}); }
        case 0x54: pay(c.sloadGas); return res({Z(o.load((u256)a[0]))});
        case 0x55: { writes(); u256 k = (u256)a[0], v = (u256)a[1], cur = o.load(k), og = e.originalStorageValue(k); int64_t R = c.sstoreRefundGas, N = c.sstoreRefundNonzeroGas, ref = 0; Z fee;
            if (!c.eip1283Mode) { fee = cur == 0 && v != 0 ? c.sstoreSetGas : c.sstoreResetGas; if (cur != 0 && v == 0) ref = R; }
            else if (cur == v) fee = c.sstoreUnchangedGas;
            else if (og == cur) { fee = og == 0 ? c.sstoreSetGas : c.sstoreResetGas; if (og != 0 && v == 0) ref = R; }
            else { fee = c.sstoreUnchangedGas; if (og != 0) { if (cur == 0) ref -= R; if (v == 0) ref += R; } if (og == v) ref += og == 0 ? R + N : N; }
            o.refunds += ref; pay(fee); o.say("set " + str(k) + "=" + str(v)); o.st[k] = v; return res({}); }
        case 0x56: { pay(base); if (!dest(a[0])) fail("jump"); s.pop_back(); pc = (size_t)a[0]; return true; } case 0x57: { pay(base); s.resize(s.size() - 2); if (a[1] == 0) { ++pc; return true; } if (!dest(a[0])) fail("jump"); pc = (size_t)a[0]; return true; }
        case 0x58: pay(base); return res({Z(pc)}); case 0x59: pay(base); return res({Z(mem.size())}); case 0x5a: pay(base); return res({gas}); case 0x5b: pay(1); return res({}); case 0x5f: need(c.havePush0); pay(base); return res({Z(0)});
        case 0xf3: case 0xfd: { if (op == 0xfd) need(c.haveRevert); Z w = grow(a[0], a[1]); pay(base + memcost(w)); extend(w); out = part(a[0], a[1]); if (op == 0xfd) fail("revert"); return false; }
        case 0xff: { writes(); Address t = ad(a[0]); Z f = c.suicideGas; if (c.eip150Mode && (!c.eip158Mode || o.balance > 0) && !o.exists(t)) f += c.callNewAccountGas; pay(f); o.say("suicide " + t.hex()); out.clear(); return false; }
        case 0xf0: case 0xf5: { if (op == 0xf5) need(c.haveCreate2); writes(); Z w = grow(a[1], a[2]); pay(c.createGas + memcost(w) + (op == 0xf5 ? Z(c.sha3WordGas * ((a[2] + 31) / 32)) : Z(0))); extend(w); ret.clear(); Z r = 0;
            if (o.balance >= (u256)a[0] && e.depth < 1024) { Z g = c.eip150Mode ? Z(gas - gas / 64) : gas; bytes b = part(a[1], a[2]); std::string q = "create " + str((int)op) + " v=" + str(a[0]) + " gas=" + str(g) + " salt=" + str(op == 0xf5 ? a[3] : Z(0)) + " code=" + hs(bytesConstRef(b.data(), b.size())); o.say(q); auto x = o.answer(q, g); gas -= g - x.left; ret = x.out; r = Z((u160)x.where); } return res({r}); }
        default: { if (op == 0xf4) need(c.haveDelegateCall); if (op == 0xfa) need(c.haveStaticCall); bool hv = op < 0xf3; Z v = hv ? a[2] : Z(0); if (op == 0xf1 && e.staticCall && v != 0) fail("static"); Z io = a[hv ? 3 : 2], il = a[hv ? 4 : 3], oo = a[hv ? 5 : 4], ol = a[hv ? 6 : 5]; Address to = ad(a[1]); Z w1 = grow(io, il), w2 = grow(oo, ol), w = w1 > w2 ? w1 : w2;
            Z f = c.callGas; if (op == 0xf1 && (v > 0 || !c.eip158Mode) && !o.exists(to)) f += c.callNewAccountGas; if (v > 0) f += c.callValueTransferGas; ret.clear(); pay(f + memcost(w)); extend(w); Z g = a[0]; if (c.eip150Mode) { Z l = gas - gas / 64; if (g > l) g = l; } pay(g); if (v > 0) g += c.callStipend; Z r = 0;
            if (Z(o.balance) >= v && e.depth < 1024) { bytes b = part(io, il); std::string q = "call from=" + (op == 0xf4 ? e.caller : e.myAddress).hex() + " code=" + to.hex() + " to=" + (op == 0xf1 || op == 0xfa ? to : e.myAddress).hex() + " v=" + str(v) + " shown=" + str(op == 0xf4 ? Z(e.value) : v) + " gas=" + str(g) + " static=" + str(op == 0xfa || e.staticCall) + " data=" + hs(bytesConstRef(b.data(), b.size())); o.say(q); auto x = o.answer(q, g); g = x.left; ret = x.out; for (size_t i = 0; i < ret.size() && i < ol; ++i) mem[(size_t)oo + i] = ret[i]; r = x.ok ? 1 : 0; }
            gas += g; return res({r}); }
        }
    }
};
static EVMSchedule const* SCH[] = {&DefaultSchedule, &FrontierSchedule, &HomesteadSchedule, &EIP150Schedule, &EIP158Schedule, &ByzantiumSchedule, &ConstantinopleSchedule, &ConstantinopleFixSchedule, &IstanbulSchedule, &BerlinSchedule, &ExperimentalSchedule};
static bytes program(h::Rng& r) {
    bytes b; auto push = [&](Z v) { bytes x; do { x.insert(x.begin(), (uint8_t)(v & 255)); v >>= 8; } while (v > 0); b.push_back(0x5f + x.size()); b += x; };
    auto val = [&]() -> Z { switch (r.below(9)) { case 0: return 0; case 1: return r.below(40); case 2: return r.below(300); case 3: return (Z(1) << 256) - 1 - r.below(5); case 4: return (Z(1) << r.below(256)) - r.below(2); case 5: return (Z(1) << 255) + r.below(3) - 1; case 6: { Z z = 0; for (int i = 0; i < 4; ++i) z = (z << 64) + r.next(); return z; } case 7: return 31 + r.below(3); default: return r.below(5000); } };
    static std::vector<uint8_t> const ops = [] { std::vector<uint8_t> v; for (int i = 0; i < 256; ++i) if (i < 0x0c || (i >= 0x10 && i <= 0x1d) || i == 0x20 || (i >= 0x30 && i <= 0x47) || (i >= 0x50 && i <= 0x5b) || i == 0x5f || (i >= 0x80 && i <= 0xa4) || (i >= 0xf0 && i <= 0xf5) || i == 0xfa || i == 0xfd || i == 0xff) v.push_back(i); return v; }();
    size_t n = 1 + r.below(14);
    for (size_t i = 0; i < n; ++i) {
        if (r.chance(1, 40)) { b.push_back((uint8_t)r.next()); continue; }     // any byte at all
        if (r.chance(1, 12)) { size_t to = b.size() + 3 + r.below(3) - 1; push(r.chance(3, 4) ? Z(to) : Z(r.below(40))); b.push_back(0x56); b.push_back(0x5b); continue; }
        uint8_t op = ops[r.below(ops.size())]; if ((op == 0 || op == 0xf3 || op == 0xfd || op == 0xff) && i + 1 < n && r.chance(3, 4)) continue; bool small = op == 0x20 || op == 0x37 || op == 0x39 || op == 0x3c || op == 0x3e || (op >= 0x51 && op <= 0x53) || (op >= 0xa0 && op <= 0xa4) || op >= 0xf0;
        int k = op >= 0x80 && op <= 0x8f ? (r.chance(1, 2) ? 0 : op - 0x7f) : op >= 0x90 && op <= 0x9f ? op - 0x8e : op >= 0xa0 && op <= 0xa4 ? op - 0x9e : op == 0xf1 || op == 0xf2 ? 7 : op == 0xf4 || op == 0xfa ? 6 : op == 0xf0 ? 3 : op == 0xf5 ? 4 : op == 0x3c ? 4 : (op >= 0x37 && op <= 0x3e) || op == 8 || op == 9 ? 3 : 2;
        if (r.chance(1, 30)) k = k ? k - 1 : 0; for (int j = 0; j < k; ++j) { if (op >= 0xf0 && op < 0xfb && j == k - 1 && r.chance(1, 2)) b.push_back(0x5a); else push(small && r.chance(5, 6) ? Z(r.below(100)) : val()); } b.push_back(op);
    }
    return b;
}
static std::string kind(std::exception const& x) { if (dynamic_cast<OutOfGas const*>(&x)) return "gas"; if (dynamic_cast<StackUnderflow const*>(&x) || dynamic_cast<OutOfStack const*>(&x)) return "stack"; if (dynamic_cast<BadInstruction const*>(&x)) return "bad instruction"; if (dynamic_cast<BadJumpDestination const*>(&x)) return "jump"; if (dynamic_cast<DisallowedStateChange const*>(&x)) return "static"; if (dynamic_cast<BufferOverrun const*>(&x)) return "return data"; return std::string("other: ") + x.what(); }
static void one(h::Rng& r, bytes code, uint64_t gas, std::string const& what, int sch = -1) {
    Outside w; w.salt = r.next(); w.sch = SCH[sch < 0 ? (r.chance(1, 2) ? 8 + r.below(3) : r.below(11)) : sch]; w.balance = r.chance(1, 3) ? u256(0) : u256(r.below(300)); for (int i = 0; i < 6; ++i) { u256 k = r.below(40), v = r.below(3); if (r.chance(1, 2)) w.st[k] = v; if (r.chance(1, 2)) w.orig[k] = r.chance(1, 2) ? v : u256(r.below(3)); } w.other = r.bytes(r.below(70));
    BlockHeader bh; bh.setNumber(r.below(1000)); bh.setGasLimit(r.next() >> 1); bh.setTimestamp(r.below(1u << 30)); bh.setAuthor(Address(r.next())); bh.setDifficulty(u256(r.next())); NoHashes lh; EnvInfo env(bh, lh, 10, 0, r.next()); bytes data = r.bytes(r.below(80)); Address me(0x1001 + r.below(4)); bool st = r.chance(1, 6); unsigned depth = r.chance(1, 8) ? 1024 : r.below(1024); u256 value = r.chance(1, 2) ? u256(0) : u256(r.next()), gp = r.next();
    Outside w2 = w; Ext e(w, env, me, Address(0x77), Address(0x78), value, gp, bytesConstRef(data.data(), data.size()), code, depth, st), e2(w2, env, me, Address(0x77), Address(0x78), value, gp, bytesConstRef(data.data(), data.size()), code, depth, st);
    std::string how = "ends", how2 = "ends"; bytes out; u256 g = gas; auto vm = std::make_unique<LegacyVM>();
    try { auto o = vm->exec(g, e, OnOpFunc()); if (o.size()) out = o.toBytes(); } catch (RevertInstruction& x) { how = "revert"; auto o = x.output(); if (o.size()) out = o.toBytes(); } catch (std::exception const& x) { how = kind(x); }
    Mini m(w2, e2, gas); try { m.run(); } catch (Stop const& x) { how2 = x.how; if (x.how != "revert") m.out.clear(); }
    std::string d = what + " code " + h::hex(code) + " gas " + std::to_string(gas) + " schedule " + std::to_string(w.sch - SCH[0]) + " static " + std::to_string(st) + " depth " + std::to_string(depth);
    bool quiet = how == how2 || (how != "ends" && how != "revert" && how2 != "ends" && how2 != "revert");      // which of several reasons is named first is not defined
    H_CHECK(quiet, "outcome", d << ": " << how << ", defined: " << how2); H_CHECK(out == m.out, "output", d << ": " << h::hex(out) << ", defined: " << h::hex(m.out)); H_CHECK(w.journal == w2.journal, "effects", d << ": " << w.journal << "defined: " << w2.journal);
    if (how == "ends" || how == "revert") { H_CHECK(Z(g) == m.gas, "gas left", d << ": " << g << ", defined: " << m.gas); H_CHECK(how != "ends" || e.sub.refunds == w2.refunds, "refund", d << ": " << e.sub.refunds << ", defined: " << w2.refunds); }
    h::count(h::hex(code) + std::to_string(gas));
}
int main(int argc, char** argv) {
    h::init(argc, argv); h::Rng r(h::seed);
    for (auto* s : SCH) H_CHECK(s->memoryGas == 3 && s->quadCoeffDiv == 512, "memory price of a schedule", "not 3 per word and a 512th of the square");
    for (auto* s : SCH) { unsigned big = 0; for (unsigned x : {s->expGas, s->expByteGas, s->sha3Gas, s->sha3WordGas, s->sloadGas, s->sstoreSetGas, s->sstoreResetGas, s->sstoreUnchangedGas, s->sstoreRefundGas, s->sstoreRefundNonzeroGas, s->logGas, s->logDataGas, s->logTopicGas, s->createGas, s->callGas, s->callStipend, s->callValueTransferGas, s->callNewAccountGas, s->copyGas, s->extcodesizeGas, s->extcodecopyGas, s->extcodehashGas, s->balanceGas, s->suicideGas, s->blockhashGas}) big = std::max(big, x); H_CHECK(big < 1u << 24, "price of a schedule", "2^24 or more"); H_CHECK(s->jumpdestGas == 1, "jump destination price", s->jumpdestGas); }
    // every single byte as an instruction, with every stack height around what it takes, for all schedules, with and without enough gas
    for (int op = 0; op < 256; ++op) for (int sc = 0; sc < 11; ++sc) for (int k = 0; k <= 17; ++k) { bytes c; for (int i = 0; i < k; ++i) { c.push_back(0x60); c.push_back((uint8_t)(op == 0x56 || op == 0x57 ? 2 * k + 1 : r.below(60))); } c.push_back(op); c.push_back(0x5b); one(r, c, r.chance(1, 4) ? 3 * k + r.below(60) : 10000000, "single instruction", sc); }
    // the stack limit: 1023, 1024 and 1025 items
    for (int op = 0x30; op < 0xa0; ++op) for (int k = 1022; k <= 1024; ++k) { bytes c; for (int i = 0; i < k; ++i) { c.push_back(0x60); c.push_back((uint8_t)i); } c.push_back(op); c.push_back(0x5b); one(r, c, 10000000, "full stack", 9); }
    while (h::more()) one(r, program(r), r.chance(1, 3) ? r.below(200) : r.chance(1, 3) ? r.below(60000) : 5000000, "random program");
    return h::done();
}
