// receipts and the records kept per block: encoding against a reference encoder, decoding gives the same content back
#include "h.hpp"
#include <libethereum/TransactionReceipt.h>
#include <libethereum/BlockDetails.h>
#include <libethcore/Exceptions.h>
using namespace dev; using namespace dev::eth; using h::Rng; typedef std::vector<uint8_t> B;
static B num(u256 v) { B r; while (v > 0) { r.insert(r.begin(), (uint8_t)(v & 255)); v >>= 8; } return r; }
static B hdr(size_t n, uint8_t base) { if (n < 56) return B{uint8_t(base + n)}; B l = num(n), r{uint8_t(base + 55 + l.size())}; r.insert(r.end(), l.begin(), l.end()); return r; }
static B str(const B& b) { if (b.size() == 1 && b[0] < 128) return b; B r = hdr(b.size(), 0x80); r.insert(r.end(), b.begin(), b.end()); return r; }
static B lst(const std::vector<B>& v) { B c; for (auto& x : v) c.insert(c.end(), x.begin(), x.end()); B r = hdr(c.size(), 0xc0); r.insert(r.end(), c.begin(), c.end()); return r; }
template <unsigned N> B fh(const FixedHash<N>& x) { return str(x.asBytes()); }
static B logB(const LogEntry& e) { std::vector<B> t; for (auto& x : e.topics) t.push_back(fh(x)); return lst({fh(e.address), lst(t), str(e.data)}); }
static B recB(const TransactionReceipt& r, bool persist) { std::vector<B> l; for (auto& e : r.log()) l.push_back(logB(e)); std::vector<B> v{r.hasStatusCode() ? str(num(r.statusCode())) : fh(r.stateRoot()), str(num(r.cumulativeGasUsed())), fh(r.bloom()), lst(l)}; if (persist && r.getRevertReason().size()) v.push_back(str(B(r.getRevertReason().begin(), r.getRevertReason().end()))); return lst(v); }
static bool eq(const LogEntry& a, const LogEntry& b) { return a.address == b.address && a.topics == b.topics && a.data == b.data; }
static bool eq(const TransactionReceipt& a, const TransactionReceipt& b, bool persist) {
    if (a.hasStatusCode() != b.hasStatusCode() || a.cumulativeGasUsed() != b.cumulativeGasUsed() || a.bloom() != b.bloom() || a.log().size() != b.log().size()) return false;
    if (a.hasStatusCode() ? a.statusCode() != b.statusCode() : a.stateRoot() != b.stateRoot()) return false;
    for (size_t i = 0; i < a.log().size(); ++i) if (!eq(a.log()[i], b.log()[i])) return false;
    return !persist || a.getRevertReason() == b.getRevertReason();
}
static Rng* G;
static h256 rh() { Rng& g = *G; switch (g.below(4)) { case 0: return h256(); case 1: return h256(g.next() & 255); case 2: return ~h256(); default: return h256(g.bytes(32)); } }
static u256 ru() { Rng& g = *G; u256 x = g.edgy(); return g.chance(1, 3) ? x : g.chance(1, 2) ? x << g.below(192) : ~u256(0) - (x & 3); }
static LogEntry rl() { Rng& g = *G; h256s t; for (unsigned i = g.below(5); i-- > 0;) t.push_back(rh()); return LogEntry(Address(g.bytes(20)), t, g.bytes(g.chance(1, 8) ? 300 + g.below(60) : g.below(70))); }
static TransactionReceipt rr() { Rng& g = *G; LogEntries l; for (unsigned i = g.below(4); i-- > 0;) l.push_back(rl()); TransactionReceipt r = g.chance(1, 2) ? TransactionReceipt((uint8_t)(g.chance(1, 2) ? g.below(2) : g.next()), ru(), l) : TransactionReceipt(rh(), ru(), l); if (g.chance(1, 3)) { B s = g.bytes(1 + g.below(g.chance(1, 6) ? 300 : 60)); r.setRevertReason(std::string(s.begin(), s.end())); } return r; }
static bool rejects(const B& b) { try { TransactionReceipt r(bytesConstRef(b.data(), b.size())); return false; } catch (std::exception&) { return true; } }
int main(int argc, char** argv) {
    h::init(argc, argv); Rng g(h::seed); G = &g;
    while (h::more()) {
        bool persist = g.chance(5, 6); TransactionReceipt::g_bEnableRevertReasonPersistence = persist;
        { TransactionReceipt r = rr(); B e = r.rlp(), w = recB(r, persist); h::count("r" + h::hex(e)); H_CHECK(e == w, "receipt.encode", h::hex(e) << " expected " << h::hex(w));
          TransactionReceipt d{bytesConstRef(w.data(), w.size())}; H_CHECK(eq(r, d, persist), "receipt.decode", h::hex(w)); H_CHECK(persist || d.getRevertReason().empty(), "receipt.no-reason", h::hex(w));
          H_CHECK(d.rlp() == w, "receipt.reencode", h::hex(w));
          bool code = r.hasStatusCode(); bool t1 = false, t2 = false; try { d.stateRoot(); } catch (TransactionReceiptVersionError&) { t1 = true; } try { d.statusCode(); } catch (TransactionReceiptVersionError&) { t2 = true; } H_CHECK(t1 == code && t2 == !code, "receipt.kind", h::hex(w));
          std::vector<B> items; RLP q(w); for (auto const& i : q) items.push_back(i.data().toBytes()); unsigned n = g.below(8); std::vector<B> v; for (unsigned i = 0; i < n; ++i) v.push_back(i < items.size() ? items[i] : B{0x80}); bool ok = n == 4 || (n == 5 && persist); H_CHECK(rejects(lst(v)) == !ok, "receipt.count", n << " items");
          std::vector<B> x = items; x[0] = lst({}); H_CHECK(rejects(lst(x)), "receipt.first-is-list", ""); x[0] = str(g.bytes(g.chance(1, 2) ? 31 : 33 + g.below(5))); x[0][1] = 0; H_CHECK(rejects(lst(x)), "receipt.first-odd-size", h::hex(x[0])); H_CHECK(rejects(str(w)), "receipt.not-a-list", ""); }
        { LogEntry l = rl(); RLPStream s; l.streamRLP(s); B e = s.out(); H_CHECK(e == logB(l), "log.encode", h::hex(e)); H_CHECK(eq(LogEntry(RLP(e)), l), "log.decode", h::hex(e)); }
        { h256s c; for (unsigned i = g.below(4); i-- > 0;) c.push_back(rh()); BlockDetails b((unsigned)g.edgy(), ru(), rh(), c, (unsigned)g.edgy()); B e = b.rlp(); h::count("d" + h::hex(e)); std::vector<B> cc; for (auto& x : c) cc.push_back(fh(x)); H_CHECK(e == lst({str(num(b.number)), str(num(b.totalDifficulty)), fh(b.parent), lst(cc), str(num(b.blockSizeBytes))}), "details.encode", h::hex(e));
          BlockDetails d{RLP(e)}; H_CHECK(d.number == b.number && d.totalDifficulty == b.totalDifficulty && d.parent == b.parent && d.children == b.children && d.blockSizeBytes == b.blockSizeBytes, "details.decode", h::hex(e)); H_CHECK(d.isNull() == (b.number == ~0u) && bool(d) == !d.isNull(), "details.null", h::hex(e)); H_CHECK(BlockDetails().isNull(), "details.default-null", ""); }
        { BlockLogBlooms b; std::vector<B> v; for (unsigned i = g.below(4); i-- > 0;) { b.blooms.push_back(LogBloom(g.bytes(256))); v.push_back(fh(b.blooms.back())); } B e = b.rlp(); H_CHECK(e == lst(v), "blooms.encode", v.size()); BlockLogBlooms d{RLP(e)}; H_CHECK(d.blooms == b.blooms, "blooms.decode", v.size()); }
        { BlocksBlooms b; std::vector<B> v; for (auto& x : b.blooms) { x = g.chance(1, 3) ? LogBloom() : LogBloom(g.bytes(256)); v.push_back(fh(x)); } B e = b.rlp(); H_CHECK(e == lst(v), "blocksblooms.encode", ""); BlocksBlooms d{RLP(e)}; H_CHECK(d.blooms == b.blooms, "blocksblooms.decode", ""); }
        { BlockReceipts b; std::vector<B> v; for (unsigned i = g.below(4); i-- > 0;) { b.receipts.push_back(rr()); v.push_back(recB(b.receipts.back(), persist)); } B e = b.rlp(); H_CHECK(e == lst(v) && b.size == e.size(), "receipts.encode", v.size()); BlockReceipts d{RLP(e)}; bool ok = d.receipts.size() == b.receipts.size(); for (size_t i = 0; ok && i < d.receipts.size(); ++i) ok = eq(b.receipts[i], d.receipts[i], persist); H_CHECK(ok, "receipts.decode", h::hex(e)); }
        { BlockHash b(rh()); B e = b.rlp(); H_CHECK(e == fh(b.value) && BlockHash(RLP(e)).value == b.value, "hash", h::hex(e)); TransactionAddress t; t.blockHash = rh(); t.index = (unsigned)g.edgy(); e = t.rlp(); H_CHECK(e == lst({fh(t.blockHash), str(num(t.index))}), "address.encode", h::hex(e)); TransactionAddress d{RLP(e)}; H_CHECK(d.blockHash == t.blockHash && d.index == t.index && bool(d) == bool(t.blockHash), "address.decode", h::hex(e)); }
    }
    return h::done();
}
