// C26: the message of a reverted call against an independent reading of its data
#include "h.hpp"
#include <skutils/eth_utils.h>
typedef std::vector<uint8_t> B;
static void put32(B& b, size_t at, uint64_t v) { for (int i = 0; i < 4; ++i) if (at + i < b.size()) b[at + i] = uint8_t(v >> (24 - 8 * i)); }
static void one(h::Rng& r) {
    size_t n = r.chance(1, 6) ? r.below(80) : 64 + r.below(200); B b = r.bytes(n); if (!r.chance(1, 20)) { static const uint8_t s[4] = {0x08, 0xc3, 0x79, 0xa0}; for (size_t i = 0; i < 4 && i < n; ++i) b[i] = s[i]; }
    for (size_t i = 4; i < 68 && i < n; ++i) b[i] = 0; static const uint64_t edge[] = {0, 1, 0x20, 0x40, 0x7fffffff, 0x80000000, 0xffffffff, 0xffffffdc, 0xffffff00, 1u << 20};
    put32(b, 32, r.chance(3, 4) ? 32 : r.chance(1, 2) ? edge[r.below(10)] : r.below(n + 3)); put32(b, 64, r.chance(1, 4) ? edge[r.below(10)] : r.chance(1, 2) && n >= 68 ? n - 68 + r.below(3) - 1 : r.below(n + 3)); if (r.chance(1, 2)) for (size_t i = 68; i < n; ++i) if (!b[i]) b[i] = 'x'; if (r.chance(1, 20) && n) b[r.below(n)] ^= 1u << r.below(8);
    std::string want; if (n > 68 && b[0] == 8 && b[1] == 0xc3 && b[2] == 0x79 && b[3] == 0xa0) { auto g = [&](size_t i) { return uint64_t(b[i]) << 24 | b[i + 1] << 16 | b[i + 2] << 8 | b[i + 3]; }; uint64_t off = 36 + g(32), len = g(64); if (off + len <= n) for (uint64_t i = off; i < off + len && b[i]; ++i) want += char(b[i]); }
    std::string hx = h::hex(b); h::count(hx); B x(b.begin(), b.end()); x.shrink_to_fit(); std::string got;
    try { got = skutils::eth::call_error_message_2_str(x); } catch (std::exception const& e) { H_CHECK(false, "throws", "reading the message throws " << e.what() << ": " << hx); return; }
    H_CHECK(got == want, "message", "the message is '" << got << "' instead of '" << want << "': " << hx);
}
int main(int c, char** v) { h::init(c, v); for (uint64_t i = 0; h::more(); ++i) { h::Rng r(h::seed * 1000003 + i); one(r); } return h::done(); }
