// C14: bytes offered as transactions against an independent decoder of the three formats
#include "h.hpp"
#include <libdevcore/RLP.h>
#include <libdevcore/SHA3.h>
#include <libdevcrypto/Common.h>
#include <libethcore/TransactionBase.h>
#include <libethcore/Common.h>
#include <boost/log/core.hpp>
namespace dev { extern bytes const NullBytes; bytes const NullBytes; } // (libdevcore/Common.cpp does not compile with this boost)
using namespace dev; using namespace dev::eth; typedef std::vector<uint8_t> B; typedef std::vector<B> Bs;
// ---- independent encoder
static B beMin(uint64_t v) { B r; while (v) { r.insert(r.begin(), (uint8_t)v); v >>= 8; } return r; }
static B head(B const& p, uint8_t s, uint8_t l) { B r; if (p.size() < 56) r.push_back(s + p.size()); else { B n = beMin(p.size()); r.push_back(l + n.size()); r.insert(r.end(), n.begin(), n.end()); } r.insert(r.end(), p.begin(), p.end()); return r; }
static B encS(B const& x) { if (x.size() == 1 && x[0] < 0x80) return x; return head(x, 0x80, 0xb7); }
static B cat(Bs const& l) { B r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
static B encL(Bs const& l) { return head(cat(l), 0xc0, 0xf7); }
static B be(u256 v) { B r; while (v) { r.insert(r.begin(), (uint8_t)(v & 0xff)); v >>= 8; } return r; }
static B encI(u256 const& v) { return encS(be(v)); }
// ---- independent decoder: an item and the rest
struct Item { bool ok = false, list = false; B s, raw; };
static Item take(B const& d, size_t& at) {
    Item r; if (at >= d.size()) return r; uint8_t b = d[at]; size_t off = 0, n = 0, left = d.size() - at; r.list = b >= 0xc0;
    if (b < 0x80) { off = 0; n = 1; }
    else { uint8_t k = b - (r.list ? 0xc0 : 0x80); off = 1; if (k < 56) n = k; else { size_t ls = k - 55; if (left <= ls || d[at + 1] == 0) return r; unsigned __int128 L = 0; for (size_t i = 1; i <= ls; ++i) L = (L << 8) | d[at + i]; if (L < 56 || L > left) return r; n = size_t(L); off = 1 + ls; } }
    if (off + n > left) return r; if (!r.list && off && n == 1 && d[at + off] < 0x80 ) return r;
    r.s.assign(d.begin() + at + off, d.begin() + at + off + n); r.raw.assign(d.begin() + at, d.begin() + at + off + n); at += off + n; r.ok = true; return r;
}
static bool items(B const& p, std::vector<Item>& out) { size_t at = 0; while (at < p.size()) { Item i = take(p, at); if (!i.ok) return false; out.push_back(i); } return true; }
static bool num(Item const& i, unsigned max, u256& v) { if (i.list || i.s.size() > max || (!i.s.empty() && !i.s[0])) return false; v = 0; for (auto x : i.s) v = (v << 8) | x; return true; }
static u256 const N("0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
struct Ref { int type = 0; u256 chain, nonce, price, prio, fee, gas, value, v, r, s; bool hasChain = false; B to, data; Bs acc; uint8_t rec = 0; std::string why; };
static bool access(Item const& i, Bs& out) {
    std::vector<Item> l; if (!i.list || !items(i.s, l) || l.size() > 16) return false;
    for (auto& x : l) { std::vector<Item> p, k; if (!x.list || !items(x.s, p) || p.size() != 2 || p[0].list || !p[1].list || !items(p[1].s, k)) return false; for (auto& y : k) if (y.list) return false; out.push_back(x.raw); }
    return true;
}
static bool decode(B const& raw, bool typed, bool cheap, Ref& t) {
    size_t at = 0; if (typed && !raw.empty() && raw[0] <= 2) { t.type = raw[0]; if (t.type == 0) return false; at = 1; }
    Item top = take(raw, at); if (!top.ok || !top.list || at != raw.size()) return false;
    std::vector<Item> l; if (!items(top.s, l) || l.size() != (t.type == 0 ? 9u : t.type == 1 ? 11u : 12u)) return false;
    unsigned k = 0; if (t.type) { if (!num(l[k++], 8, t.chain)) return false; t.hasChain = true; }
    if (!num(l[k++], 32, t.nonce)) return false;
    if (t.type == 2) { if (!num(l[k++], 32, t.prio) || !num(l[k++], 32, t.fee) || t.prio > t.fee) return false; t.price = t.fee; } else if (!num(l[k++], 32, t.price)) return false;
    if (!num(l[k++], 32, t.gas)) return false;
    if (l[k].list || (l[k].s.size() && l[k].s.size() != 20)) return false; t.to = l[k++].s;
    if (!num(l[k++], 32, t.value)) return false;
    if (l[k].list) return false; t.data = l[k++].s;
    if (t.type) if (!access(l[k++], t.acc)) return false;
    if (!num(l[k++], t.type ? 1 : 32, t.v) || !num(l[k], 32, t.r) || !num(l[k + 1], 32, t.s)) return false;
    bool zero = !t.r && !t.s;
    if (t.type == 0) { if (zero) { if (t.v > u256(~uint64_t(0))) return false; t.chain = t.v; t.hasChain = true; return true; }
        if (t.v == 27 || t.v == 28) t.rec = uint8_t(t.v - 27); else if (t.v > 36 && (t.v - 35) / 2 <= u256(~uint64_t(0))) { t.chain = (t.v - 35) / 2; t.hasChain = true; t.rec = uint8_t((t.v - 35) & 1); } else return false; }
    else t.rec = uint8_t(t.v);
    return !cheap || (t.rec <= 1 && t.r > 0 && t.s > 0 && t.r < N && t.s < N);
}
static B unsignedBytes(Ref const& t) {
    Bs l; if (t.type) l.push_back(encI(t.chain)); l.push_back(encI(t.nonce)); if (t.type == 2) { l.push_back(encI(t.prio)); l.push_back(encI(t.fee)); } else l.push_back(encI(t.price));
    l.push_back(encI(t.gas)); l.push_back(encS(t.to)); l.push_back(encI(t.value)); l.push_back(encS(t.data)); if (t.type) l.push_back(encL(t.acc)); else if (t.hasChain) { l.push_back(encI(t.chain)); l.push_back({0x80}); l.push_back({0x80}); }
    B r = encL(l); if (t.type) r.insert(r.begin(), t.type); return r;
}
static u256 big(h::Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return r.below(5); case 2: return r.below(2000000); case 3: return u256(1) << r.below(256); case 4: return (u256(1) << r.below(256)) - 1; default: { u256 v = r.next(); for (int i = 0; i < 3; ++i) v = (v << 64) | r.next(); return v >> r.below(256); } } }
static B sized(h::Rng& r, unsigned usual) { return r.bytes(r.chance(14, 15) ? usual : r.below(40)); }
static B genAccess(h::Rng& r) {
    Bs l; unsigned n = r.chance(1, 12) ? 15 + r.below(3) : r.below(4);
    for (unsigned i = 0; i < n; ++i) { Bs k; for (unsigned j = r.below(3); j-- > 0;) k.push_back(r.chance(1, 40) ? encL({}) : encS(sized(r, 32))); Bs p{encS(sized(r, 20)), r.chance(1, 40) ? encS(cat(k)) : encL(k)}; if (r.chance(1, 40)) p.push_back({5}); if (r.chance(1, 40)) p.pop_back(); l.push_back(r.chance(1, 40) ? encS(cat(p)) : encL(p)); }
    return r.chance(1, 40) ? encS(cat(l)) : encL(l);
}
static B gen(h::Rng& r) {
    unsigned type = r.below(3); Bs l; static u256 const edge[] = {27, 28, 35, 36, 37, 38, 0, 1, (u256(1) << 64) + 34, (u256(1) << 64) + 35, (u256(1) << 65) + 34, (u256(1) << 65) + 33, (u256(1) << 64) - 1, u256(1) << 64, (u256(1) << 65) + 35, (u256(1) << 65) - 1};
    if (type) l.push_back(encI(r.chance(1, 10) ? big(r) : u256(r.below(3) ? r.below(100000) : r.next())));
    l.push_back(encI(big(r))); u256 a = big(r), b = big(r); if (type == 2) { if (r.chance(1, 8)) b = a; else if (b < a && r.chance(3, 4)) std::swap(a, b); l.push_back(encI(a)); l.push_back(encI(b)); } else l.push_back(encI(a));
    l.push_back(encI(big(r))); l.push_back(encS(r.chance(1, 4) ? B() : sized(r, 20))); l.push_back(encI(big(r))); l.push_back(encS(r.bytes(r.chance(1, 3) ? 0 : r.below(80)))); if (type) l.push_back(genAccess(r));
    bool zero = r.chance(1, 8); u256 v = type ? u256(r.chance(7, 8) ? r.below(2) : r.below(300)) : r.chance(1, 3) ? edge[r.below(16)] : r.chance(1, 8) ? big(r) : u256(35 + r.below(200000)); l.push_back(encI(v));
    u256 s1 = zero ? u256(0) : r.chance(1, 10) ? N - 1 + r.below(3) : big(r), s2 = zero ? u256(0) : r.chance(1, 10) ? N - 1 + r.below(3) : big(r); l.push_back(encI(s1)); l.push_back(encI(s2));
    switch (r.below(14)) { // spoil a field
    case 0: l.pop_back(); break; case 1: l.push_back({uint8_t(r.below(128))}); break; case 2: l[r.below(l.size())] = {0x00}; break; case 3: { auto& x = l[r.below(l.size())]; x = {0x81, uint8_t(r.below(256))}; break; } case 4: l[r.below(l.size())] = encL({}); break;
    case 5: { auto& x = l[r.below(l.size())]; B y = r.bytes(1 + r.below(40)); if (r.chance(1, 2)) y[0] = 0; x = encS(y); break; } case 6: { auto i = r.below(l.size()), j = r.below(l.size()); std::swap(l[i], l[j]); break; } case 7: l[r.below(l.size())] = {0x80}; break; default: break; }
    B raw = encL(l); if (type) raw.insert(raw.begin(), type); if (r.chance(1, 30)) raw.insert(raw.begin(), uint8_t(r.below(5)));
    if (r.chance(1, 8)) switch (r.below(4)) { case 0: raw.push_back(r.next()); break; case 1: raw.pop_back(); break; case 2: raw[r.below(raw.size())] ^= 1u << r.below(8); break; default: raw[r.below(std::min<size_t>(raw.size(), 5))] = r.next(); }
    return raw;
}
static void check(B const& raw, bool typed, bool cheap) {
    Ref t; bool ok = decode(raw, typed, cheap, t); std::string hx = h::hex(raw).substr(0, 900) + (typed ? " typed" : " legacy only") + (cheap ? " signature checked" : "");
    h::count(hx); std::unique_ptr<uint8_t[]> p(new uint8_t[raw.size() + 1]); if (raw.size()) memcpy(p.get(), raw.data(), raw.size());
    bytes in(raw.begin(), raw.end()); auto mode = cheap ? CheckTransaction::Cheap : CheckTransaction::None; std::unique_ptr<TransactionBase> x; bool acc = true;
    try { x = std::make_unique<TransactionBase>(bytesConstRef(p.get(), raw.size()), mode, false, typed); } catch (std::exception const&) { acc = false; } catch (boost::exception const&) { acc = false; }
    H_CHECK(acc == ok, "accept", (acc ? "accepted: " : "refused: ") << hx);
    if (!acc) { bool threw = false; try { TransactionBase y(bytesConstRef(p.get(), raw.size()), mode, true, typed); if (!y.isInvalid()) H_CHECK(false, "invalid", "a malformed transaction is not marked invalid: " << hx); } catch (...) { threw = true; } H_CHECK(!threw, "invalid", "threw although invalid transactions are allowed: " << hx); }
    if (acc != ok || !acc) return;
#define F(what, got, want) H_CHECK((got) == (want), "field", what << " differs: " << hx)
    F("type", int(x->txType()), t.type); F("nonce", x->nonce(), t.nonce); F("gas price", x->gasPrice(), t.price); F("gas", x->gas(), t.gas); F("value", x->value(), t.value); F("data", x->data(), bytes(t.data)); F("creation", x->isCreation(), t.to.empty());
    F("receiver", x->to(), t.to.empty() ? Address() : Address(bytes(t.to))); F("chain id present", x->isReplayProtected(), t.hasChain); F("chain id", x->chainId(), t.hasChain ? uint64_t(t.chain) : 0); F("r", u256(x->signature().r), t.r); F("s", u256(x->signature().s), t.s); F("v", unsigned(x->signature().v), unsigned(t.rec));
    if (t.type == 2) { F("maximal priority fee", x->maxPriorityFeePerGas(), t.prio); F("maximal fee", x->maxFeePerGas(), t.fee); }
    { Bs g; for (auto& a : x->m_accessList) g.push_back(a); F("access list", g, t.acc); }
    F("re-encoding", x->toBytes(), in); F("hash", x->sha3(), sha3(in)); bytes ub = unsignedBytes(t); F("signing hash", x->sha3(WithoutSignature), sha3(ub));
    bool low = t.s <= N / 2, threw = false; try { x->checkLowS(); } catch (Exception const&) { threw = true; } F("low s", threw, !low);
    for (uint64_t c : {uint64_t(t.chain), uint64_t(t.chain) + 1, uint64_t(7)}) for (bool off : {false, true}) { bool th = false; try { x->checkChainId(c, off); } catch (Exception const&) { th = true; } F("chain id check", th, t.hasChain ? u256(c) != t.chain : !off); }
}
// a transaction signed with a key is accepted with full checks and its sender is the owner of the key
static void signedOne(h::Rng& r) {
    B raw = gen(r); Ref t; if (!decode(raw, true, false, t) || (t.type == 0 && t.hasChain && t.chain == 0)) return;
    bytes kb = r.bytes(32); kb[0] = 1; Secret k(kb); bytes ub = unsignedBytes(t); Signature sg = dev::sign(k, sha3(ub)); SignatureStruct ss = *(SignatureStruct const*)&sg; if (!ss.isValid()) return;
    Bs l; if (t.type) l.push_back(encI(t.chain)); l.push_back(encI(t.nonce)); if (t.type == 2) { l.push_back(encI(t.prio)); l.push_back(encI(t.fee)); } else l.push_back(encI(t.price)); l.push_back(encI(t.gas)); l.push_back(encS(t.to)); l.push_back(encI(t.value)); l.push_back(encS(t.data)); if (t.type) l.push_back(encL(t.acc));
    l.push_back(encI(t.type ? u256(ss.v) : t.hasChain ? t.chain * 2 + 35 + ss.v : u256(27 + ss.v))); l.push_back(encI(u256(ss.r))); l.push_back(encI(u256(ss.s))); B out = encL(l); if (t.type) out.insert(out.begin(), t.type);
    std::string hx = h::hex(out); h::count("signed " + hx); try { bytes in(out.begin(), out.end()); TransactionBase x(&in, CheckTransaction::Everything, false, true); H_CHECK(x.sender() == toAddress(toPublic(k)) && x.safeSender() == x.sender(), "sender", "sender " << x.sender() << ": " << hx); } catch (std::exception const&) { H_CHECK(false, "sender", "a signed transaction is refused: " << hx); }
}
int main(int c, char** v) {
    h::init(c, v); boost::log::core::get()->set_logging_enabled(false); std::cerr.setstate(std::ios::failbit);
    for (uint64_t i = 0; h::more(); ++i) { h::Rng r(h::seed * 1000003 + i); B raw = gen(r); bool typed = r.chance(9, 10); check(raw, typed, false); check(raw, typed, true); if (r.chance(1, 4)) signedOne(r); }
    return h::done();
}
