// LRU cache against a plain vector ordered by last use
#include "h.hpp"
#include <libdevcore/LruCache.h>
#include <string>
using h::Rng;
template <class K, class V, class MK, class MV> static void run(Rng& g, MK mk, MV mv, const char* nm) {
    size_t cap = 1 + g.below(g.chance(1, 4) ? 40 : 5), keys = 1 + g.below(2 * cap + 3); dev::LruCache<K, V> c(cap); std::vector<std::pair<K, V>> m; std::ostringstream os; os << nm << " capacity=" << cap << " ops=";
    auto find = [&](const K& k) { for (size_t i = 0; i < m.size(); ++i) if (m[i].first == k) return i; return m.size(); };
    for (int s = 0, n = 1 + g.below(60); s < n; ++s) {
        unsigned kn = g.below(keys), vn = g.below(4); K k = mk(kn); V v = mv(vn); unsigned op = g.below(20); size_t i = find(k);
        if (op < 11) { os << "i" << kn << ":" << vn << " "; size_t r = c.insert(k, v); if (i < m.size()) { auto e = m[i]; m.erase(m.begin() + i); m.insert(m.begin(), e); } else { if (m.size() == cap) m.pop_back(); m.insert(m.begin(), {k, v}); } H_CHECK(r == m.size(), "lru.insert.size", os.str() << " got=" << r); }
        else if (op < 14) { os << "t" << kn << " "; bool r = c.touch(k); H_CHECK(r == (i < m.size()), "lru.touch", os.str()); if (i < m.size()) { auto e = m[i]; m.erase(m.begin() + i); m.insert(m.begin(), e); } }
        else if (op < 17) { os << "r" << kn << " "; size_t r = c.remove(k); if (i < m.size()) m.erase(m.begin() + i); H_CHECK(r == m.size(), "lru.remove.size", os.str() << " got=" << r); }
        else if (op == 17 && g.chance(1, 4)) { os << "clear "; c.clear(); m.clear(); }
        H_CHECK(c.size() == m.size() && c.empty() == m.empty() && c.capacity() == cap, "lru.size", os.str() << " size=" << c.size() << " expected=" << m.size());
        for (unsigned q = 0; q < keys; ++q) { size_t j = find(mk(q)); H_CHECK(c.contains(mk(q)) == (j < m.size()), "lru.contains", os.str() << " key=" << q); for (unsigned x = 0; x < 4; ++x) H_CHECK(c.contains(mk(q), mv(x)) == (j < m.size() && m[j].second == mv(x)), "lru.contains-value", os.str() << " key=" << q << " value=" << x); }
        size_t j = 0; for (auto it = c.cbegin(); it != c.cend(); ++it, ++j) { if (j >= m.size()) break; H_CHECK(it->first == m[j].first && it->second == m[j].second, "lru.order", os.str() << " position=" << j); } H_CHECK(j == m.size(), "lru.list-length", os.str());
    }
    h::count(os.str());
}
int main(int argc, char** argv) {
    h::init(argc, argv); Rng g(h::seed);
    while (h::more()) {
        run<uint64_t, uint64_t>(g, [](unsigned i) { return uint64_t(i) << 32; }, [](unsigned i) { return uint64_t(i); }, "u64");
        run<std::string, int>(g, [](unsigned i) { return "key" + std::to_string(i); }, [](unsigned i) { return int(i); }, "string");
    }
    return h::done();
}
