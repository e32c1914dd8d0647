// precompiled contracts: prices and results against independent definitions; cryptographic back ends are stand-ins that record their arguments
#include "h.hpp"
#include <libethereum/Precompiled.h>
#include <libethcore/ChainOperationParams.h>
#include <libethereum/SchainPatch.h>
#include <libethereum/SkaleHost.h>
#include <libdevcrypto/Common.h>
#include <libdevcrypto/Hash.h>
#include <libdevcrypto/LibSnark.h>
#include <boost/log/core.hpp>
#include <libskale/OverlayFS.h>
#include <libdevcore/FileSystem.h>
#include <fstream>
#include <openssl/sha.h>
#include <openssl/ripemd.h>
using namespace dev; using namespace dev::eth; using h::Rng; typedef std::vector<uint8_t> B;
static struct { Signature sig; h256 hash; int calls = 0; bool null = false; Public pub; } rec;
static struct { B in; int which = 0; } bn;
namespace dev {
Public recover( Signature const& s, h256 const& hsh ) { rec.sig = s; rec.hash = hsh; ++rec.calls; return rec.null ? Public() : rec.pub; }
bool SignatureStruct::isValid() const noexcept { return r && s; }
namespace crypto {
std::pair< bool, bytes > alt_bn128_G1_add( bytesConstRef i ) { bn.in = i.toBytes(); bn.which = 1; return {true, bytes{1}}; }
std::pair< bool, bytes > alt_bn128_G1_mul( bytesConstRef i ) { bn.in = i.toBytes(); bn.which = 2; return {true, bytes{2}}; }
std::pair< bool, bytes > alt_bn128_pairing_product( bytesConstRef i ) { bn.in = i.toBytes(); bn.which = 3; return {false, bytes{3}}; }
}
}
dev::u256 SkaleHost::getBlockRandom() const { return 0; }
std::array< std::string, 4 > SkaleHost::getIMABLSPublicKey() const { return {}; }
std::string SkaleHost::getHistoricNodeId( unsigned ) const { return ""; }
std::string SkaleHost::getHistoricNodeIndex( unsigned ) const { return ""; }
std::string SkaleHost::getHistoricNodePublicKey( unsigned ) const { return ""; }
// file-storage operations: recorded, never executed
struct FsOp { std::string what, path; size_t a = 0, b = 0; B data; bool operator==(const FsOp& o) const { return what == o.what && path == o.path && a == o.a && b == o.b && data == o.data; } };
static std::vector<FsOp> fsops; static size_t inputSize = 0; static bool fsbad = false;
namespace skale {
void OverlayFS::createFile( const std::string& p, const size_t n ) { fsops.push_back({"createFile", p, n}); }
void OverlayFS::createDirectory( const std::string& p ) { fsops.push_back({"createDirectory", p}); }
void OverlayFS::writeChunk( const std::string& p, const size_t pos, const size_t n, const _byte_* d ) { if (n > inputSize || (n && !d)) { fsbad = true; return; } fsops.push_back({"writeChunk", p, pos, n, B(d, d + n)}); }
void OverlayFS::deleteFile( const std::string& p ) { fsops.push_back({"deleteFile", p}); }
void OverlayFS::deleteDirectory( const std::string& p ) { fsops.push_back({"deleteDirectory", p}); }
void OverlayFS::calculateFileHash( const std::string& p ) { fsops.push_back({"calculateFileHash", p}); }
}
static bigint at(const B& in, const bigint& b, const bigint& n) { bigint r = 0; if (b >= in.size()) return 0; for (bigint i = 0; i < n; ++i) { r <<= 8; if (b + i < in.size()) r |= in[(size_t)(b + i)]; } return r; }
static unsigned topbit(bigint x) { unsigned n = 0; while (x > 1) { x >>= 1; ++n; } return n; }
static bigint mc(const bigint& x) { return x <= 64 ? bigint(x * x) : x <= 1024 ? bigint(x * x / 4 + 96 * x - 3072) : bigint(x * x / 16 + 480 * x - 199680); }
static bigint modexpPrice(const B& in) {
    bigint bl = at(in, 0, 32), el = at(in, 32, 32), ml = at(in, 64, 32), mx = bl > ml ? bl : ml, adj;
    if (el <= 32) { bigint e = at(in, 96 + bl, el); adj = e == 0 ? 0 : topbit(e); } else { bigint e = at(in, 96 + bl, 32); adj = 8 * (el - 32) + (e == 0 ? 0 : topbit(e)); }
    return mc(mx) * (adj > 1 ? adj : bigint(1)) / 20;
}
static B w32(const bigint& v) { B r(32); bigint x = v; for (int i = 31; i >= 0; --i) { r[i] = (uint8_t)(x & 255); x >>= 8; } return r; }
static B cat(std::initializer_list<B> l) { B r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
static std::pair<bool, bytes> run(const char* n, const B& in) { std::unique_ptr<uint8_t[]> p(new uint8_t[in.size() ? in.size() : 1]); if (in.size()) memcpy(p.get(), in.data(), in.size()); return PrecompiledRegistrar::executor(n)(bytesConstRef(p.get(), in.size())); }
static ChainOperationParams cp;
static std::pair<bool, bytes> runfs(const char* n, const B& in) { std::unique_ptr<uint8_t[]> p(new uint8_t[in.size() ? in.size() : 1]); if (in.size()) memcpy(p.get(), in.data(), in.size()); fsops.clear(); fsbad = false; inputSize = in.size(); skale::OverlayFS o; return PrecompiledRegistrar::executor(n)(bytesConstRef(p.get(), in.size()), &o); }
static bigint price(const char* n, const B& in, u256 blk) { return PrecompiledRegistrar::pricer(n)(bytesConstRef(in.data(), in.size()), cp, blk); }
static void modexp(const B& in, bool exec) {
    h::count("m" + h::hex(in)); std::string d = "input=" + h::hex(in).substr(0, 600); bigint p = price("modexp", in, 1), w = modexpPrice(in); H_CHECK(p == w, "price.modexp", d << " got=" << p << " expected=" << w);
    if (!exec) return; bigint bl = at(in, 0, 32), el = at(in, 32, 32), ml = at(in, 64, 32); if (bl > 200 || el > 200 || ml > 200) return;
    bigint b = at(in, 96, bl), e = at(in, 96 + bl, el), m = at(in, 96 + bl + el, ml), r = 0; if (m > 0) { r = 1 % m; bigint x = b % m; for (bigint k = e; k > 0; k >>= 1) { if (k & 1) r = r * x % m; x = x * x % m; } }
    B want((size_t)ml); bigint x = r; for (size_t i = want.size(); i-- > 0;) { want[i] = (uint8_t)(x & 255); x >>= 8; }
    auto g = run("modexp", in); H_CHECK(g.first && g.second == want, "result.modexp", d << " got=" << h::hex(g.second) << " expected=" << h::hex(want));
}
int main(int argc, char** argv) {
    h::init(argc, argv); Rng g(h::seed); boost::log::core::get()->set_logging_enabled(false); rec.pub = Public::random(); cp.istanbulForkBlock = 100;
    PrecompiledExecutor ex([](bytesConstRef i, skale::OverlayFS*) { return std::make_pair(true, i.toBytes()); });
    setDataDir(h::scratch); std::string base = h::scratch + "/filestorage/"; boost::filesystem::create_directories(base);
    while (h::more()) {
        // file storage: decoded arguments, bounds of the file and of the input (operations are recorded by stand-ins)
        { Address a(g.next() % 3 + 1); std::string dir = base + a.hex(); boost::filesystem::create_directories(dir); std::string name = g.chance(1, 2) ? "f" : "a_rather_long_file_name_that_needs_more_than_one_word." + std::to_string(g.below(3)); size_t fsz = g.below(100); B content = g.bytes(fsz); { std::ofstream f(dir + "/" + name, std::ios::binary); f.write((const char*)content.data(), content.size()); }
          B head(12, (uint8_t)g.below(2)); auto ab = a.asBytes(); head.insert(head.end(), ab.begin(), ab.end()); B nm(name.begin(), name.end()); nm.resize((nm.size() + 31) / 32 * 32); B pre = cat({head, w32(name.size()), nm});
          auto num = [&]() -> bigint { unsigned k = g.below(10); return k < 7 ? bigint(g.below(fsz + 3)) : k == 7 ? (bigint(1) << 64) - g.below(120) : k == 8 ? (bigint(1) << (63 + g.below(190))) + g.below(9) : bigint(g.edgy()); };
          bigint pos = num(), len = num(); B data = g.bytes(g.below(120)); const bigint M = bigint(1) << 64; bigint p64 = pos % M, l64 = len % M; bool small = p64 + l64 <= fsz; h::count("f" + h::hex(pre) + pos.str() + "," + len.str());
          std::string d = "position=" + pos.str() + " length=" + len.str() + " file=" + std::to_string(fsz) + " data=" + std::to_string(data.size()), path = dir + "/" + name; B ok = w32(1), no = w32(0);
          auto r = runfs("uploadChunk", cat({pre, w32(pos), w32(len), data})); bool up = small && l64 <= data.size();
          H_CHECK(!fsbad, "fs.upload.beyond-input", d); H_CHECK(r.first == up && r.second == (up ? ok : no), "fs.upload.result", d << " ok=" << r.first);
          if (up) H_CHECK(fsops == (std::vector<FsOp>{{"writeChunk", path, (size_t)p64, (size_t)l64, B(data.begin(), data.begin() + (size_t)l64)}}), "fs.upload.effect", d); else H_CHECK(fsops.empty(), "fs.upload.no-effect", d);
          if (l64 != 0) { r = run("readChunk", cat({pre, w32(pos), w32(len)})); H_CHECK(r.first == small, "fs.read.result", d << " ok=" << r.first); if (small) H_CHECK(r.second == B(content.begin() + (size_t)p64, content.begin() + (size_t)(p64 + l64)), "fs.read.content", d); else H_CHECK(r.second == no, "fs.read.failure", d); }
          r = run("getFileSize", pre); H_CHECK(r.first && r.second == w32(fsz), "fs.size", d); r = run("getFileSize", cat({head, w32(6), B{'n', 'o', 's', 'u', 'c', 'h'}, B(26)})); H_CHECK(!r.first && r.second == no, "fs.size.absent", "");
          size_t want = g.below(1000); r = runfs("createFile", cat({pre, w32(want)})); H_CHECK(r.first && r.second == ok && fsops == (std::vector<FsOp>{{"createFile", path, want}}), "fs.create", name);
          r = runfs("deleteFile", pre); H_CHECK(r.first && r.second == ok && fsops == (std::vector<FsOp>{{"deleteFile", path}, {"deleteFile", path + "._hash"}}), "fs.delete", name);
          r = runfs("createDirectory", pre); H_CHECK(r.first && r.second == ok && fsops == (std::vector<FsOp>{{"createDirectory", path}}), "fs.mkdir", name);
          r = runfs("deleteDirectory", pre); H_CHECK(r.first && r.second == ok && fsops == (std::vector<FsOp>{{"deleteFile", path + "._hash"}, {"deleteDirectory", path}}), "fs.rmdir", name);
          r = runfs("calculateFileHash", pre); H_CHECK(r.first && r.second == ok && fsops == (std::vector<FsOp>{{"calculateFileHash", path}}), "fs.hash", name);
          B evil = cat({head, w32(g.chance(1, 2) ? bigint(g.edgy()) : (bigint(1) << 64) - g.below(200)), g.bytes(g.below(70))}); if (at(evil, 56, 8) + 64 > evil.size()) for (auto n : {"uploadChunk", "createFile", "deleteFile", "createDirectory", "deleteDirectory", "calculateFileHash"}) { r = runfs(n, evil); H_CHECK(!r.first && r.second == no && fsops.empty(), "fs.name-beyond-input", n << " " << h::hex(evil)); }
          boost::filesystem::remove(path); }
        // modular exponentiation
        { unsigned k = g.below(5); bigint bl = g.below(k == 0 ? 3 : 70), el = g.below(k == 1 ? 3 : 70), ml = g.below(k == 2 ? 3 : 70); B body = g.bytes(g.below((size_t)(bl + el + ml) + 3)); if (g.chance(1, 6)) for (auto& c : body) if (g.chance(2, 3)) c = 0; B in = cat({w32(bl), w32(el), w32(ml), body}); if (g.chance(1, 8)) in.resize(g.below(in.size() + 1)); modexp(in, true);
          bigint big = bigint(g.edgy()) << (g.below(4) * 60); B in2 = cat({w32(g.chance(1, 2) ? big & ((bigint(1) << 256) - 1) : bigint(g.below(2000))), w32(g.chance(1, 2) ? big & ((bigint(1) << 256) - 1) : bigint(g.below(100))), w32(g.chance(1, 2) ? bigint(g.below(2000)) : big & ((bigint(1) << 256) - 1)), g.bytes(g.below(200))}); if (at(in2, 32, 32) <= 32 || true) modexp(in2, false); }
        // linear pricing and restrictions
        { unsigned base = (unsigned)g.edgy(), word = (unsigned)g.edgy(); size_t n = g.below(200); B in = g.bytes(n); u256 st = g.below(20); h160Set al; std::vector<Address> pool; for (int i = 0; i < 4; ++i) pool.push_back(Address(g.next())); for (unsigned i = g.below(4); i-- > 0;) al.insert(pool[g.below(4)]);
          PrecompiledContract c(base, word, ex, st, al); h::count("l" + h::hex(in)); bigint want = bigint(base) + bigint((n + 31) / 32) * word; H_CHECK(c.cost(bytesConstRef(in.data(), n), cp, 5) == want, "price.linear", "base=" << base << " word=" << word << " size=" << n);
          ChainOperationParams q; Address a(g.next()), o(g.next()); q.precompiled.insert({a, c}); q.precompiled.insert({o, PrecompiledContract(1, 2, ex, 3)});
          for (int b = 0; b < 22; ++b) { H_CHECK(q.isPrecompiled(a, b) == (u256(b) >= st), "starting-block", "block=" << b << " start=" << st); H_CHECK(!q.isPrecompiled(Address(77), b), "absent", ""); }
          for (auto& f : pool) for (bool ro : {false, true}) H_CHECK(q.precompiledExecutionAllowedFrom(a, f, ro) == (al.empty() || (al.count(f) && !ro)), "allowed", "listed=" << al.count(f) << " list size=" << al.size() << " readOnly=" << ro);
          H_CHECK(q.costOfPrecompiled(a, bytesConstRef(in.data(), n), 5) == want, "price.chain", "size=" << n); H_CHECK(q.executePrecompiled(a, bytesConstRef(in.data(), n), 5).second == in, "execute.chain", ""); }
        // elliptic curve prices
        { B in = g.bytes(g.below(800)); int blk = 95 + g.below(10); bool ist = blk >= 100; size_t k = in.size() / 192; H_CHECK(price("alt_bn128_G1_add", in, blk) == (ist ? 150 : 500), "price.add", "block=" << blk); H_CHECK(price("alt_bn128_G1_mul", in, blk) == (ist ? 6000 : 40000), "price.mul", "block=" << blk); H_CHECK(price("alt_bn128_pairing_product", in, blk) == (ist ? 45000 + k * 34000 : 100000 + k * 80000), "price.pairing", "block=" << blk << " size=" << in.size());
          auto r = run("alt_bn128_G1_add", in); H_CHECK(bn.which == 1 && bn.in == in && r.first && r.second == bytes{1}, "result.add", ""); r = run("alt_bn128_G1_mul", in); H_CHECK(bn.which == 2 && bn.in == in && r.first && r.second == bytes{2}, "result.mul", ""); r = run("alt_bn128_pairing_product", in); H_CHECK(bn.which == 3 && bn.in == in && !r.first && r.second == bytes{3}, "result.pairing", ""); }
        // hashes and identity
        { B in = g.bytes(g.below(g.chance(1, 10) ? 1000 : 140)); h::count("h" + h::hex(in)); auto r = run("identity", in); H_CHECK(r.first && r.second == in, "result.identity", h::hex(in)); B w(32); SHA256(in.data(), in.size(), w.data()); r = run("sha256", in); H_CHECK(r.first && r.second == w, "result.sha256", h::hex(in)); B w2(32); RIPEMD160(in.data(), in.size(), w2.data() + 12); r = run("ripemd160", in); H_CHECK(r.first && r.second == w2, "result.ripemd160", h::hex(in)); }
        // ecrecover: padded input, admissible v, hash of the recovered key without its first 12 bytes
        { B in = g.bytes(128); for (int i = 32; i < 63; ++i) in[i] = g.chance(1, 40) ? 1 : 0; in[63] = 25 + g.below(6); if (g.chance(1, 8)) for (int i = 64; i < 96; ++i) in[i] = 0; if (g.chance(1, 3)) in.resize(g.below(140)); B pad = in; pad.resize(128); rec.calls = 0; rec.null = g.chance(1, 5); h::count("e" + h::hex(in)); auto r = run("ecrecover", in);
          bigint v = at(pad, 32, 32); bool valid = (v == 27 || v == 28) && at(pad, 64, 32) != 0 && at(pad, 96, 32) != 0; B want; if (valid && !rec.null) { want = sha3(rec.pub).asBytes(); std::fill(want.begin(), want.begin() + 12, 0); }
          H_CHECK(r.first && r.second == want, "result.ecrecover", "input=" << h::hex(in) << " got=" << h::hex(r.second)); if (valid) H_CHECK(rec.calls == 1 && rec.hash.asBytes() == B(pad.begin(), pad.begin() + 32) && B(rec.sig.data(), rec.sig.data() + 64) == B(pad.begin() + 64, pad.begin() + 128) && rec.sig[64] == (uint8_t)(v - 27), "ecrecover.arguments", "input=" << h::hex(in)); }
        H_CHECK([&] { try { PrecompiledRegistrar::executor("nosuch"); return false; } catch (ExecutorNotFound&) { return true; } }() && [&] { try { PrecompiledRegistrar::pricer("identity"); return false; } catch (PricerNotFound&) { return true; } }(), "registrar", "");
    }
    return h::done();
}
