// in-memory recording stand-in for a physical store behind dev::db::DatabaseFace, and a reference map
#pragma once
#include "h.hpp"
#include <libdevcore/db.h>
#include <libdevcore/Common.h>
#include <algorithm>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
// runs this program again as a child (a forked copy would lack the store's background thread); returns its exit status, -1 when it did not exit
inline int again(std::vector<std::string> const& args) {
    pid_t c = fork();
    if (!c) { std::vector<char*> a; static char self[] = "/proc/self/exe"; a.push_back(self); for (auto& x : args) a.push_back(const_cast<char*>(x.c_str())); a.push_back(nullptr); execv(self, a.data()); _exit(45); }
    int s = 0; for (int i = 0; i < 6000; ++i) { pid_t w = waitpid(c, &s, WNOHANG); if (w == c) return WIFEXITED(s) ? WEXITSTATUS(s) : -1; usleep(i < 200 ? 500 : 10000); }
    kill(c, SIGKILL); waitpid(c, &s, 0); return -2;
}
using Map = std::map<std::string, std::string>;
using Sl = dev::db::Slice;
inline std::string st(Sl s) { return std::string(s.data(), s.size()); }
struct Op { bool ins; std::string k, v; bool operator==(Op const& o) const { return ins == o.ins && k == o.k && v == o.v; } };
struct MemBatch : dev::db::WriteBatchFace {
    std::vector<Op> ops;
    void insert(Sl k, Sl v) override { ops.push_back({true, st(k), st(v)}); }
    void kill(Sl k) override { ops.push_back({false, st(k), {}}); }
};
struct MemDB : dev::db::DatabaseFace {
    Map m; std::vector<std::vector<Op>> commits; unsigned direct = 0, discards = 0; mutable unsigned batches = 0; bool failNext = false;
    std::string lookup(Sl k) const override { auto i = m.find(st(k)); return i == m.end() ? std::string() : i->second; }
    bool exists(Sl k) const override { return m.count(st(k)); }
    void insert(Sl k, Sl v) override { ++direct; m[st(k)] = st(v); }
    void kill(Sl k) override { ++direct; m.erase(st(k)); }
    std::unique_ptr<dev::db::WriteBatchFace> createWriteBatch() const override { ++batches; return std::make_unique<MemBatch>(); }
    void commit(std::unique_ptr<dev::db::WriteBatchFace> b) override {
        auto* p = dynamic_cast<MemBatch*>(b.get());
        if (!p) { h::viol("foreign-batch", "a batch that the store did not create was committed to it"); return; }
        commits.push_back(p->ops);
        for (auto& o : p->ops) if (o.ins) m[o.k] = o.v; else m.erase(o.k);
    }
    // pieces are handed out in exactly sized buffers so that the sanitizer sees reads outside a key or value
    static Sl buf(std::vector<char>& b) { return Sl(b.data(), b.size()); }
    void forEach(std::function<bool(Sl, Sl)> f) const override { auto c = m; for (auto& e : c) { std::vector<char> k(e.first.begin(), e.first.end()), v(e.second.begin(), e.second.end()); if (!f(buf(k), buf(v))) return; } }
    void forEachWithPrefix(std::string& p, std::function<bool(Sl, Sl)> f) const override {
        auto c = m; for (auto i = c.lower_bound(p); i != c.end() && i->first.compare(0, p.size(), p) == 0; ++i) { std::vector<char> k(i->first.begin(), i->first.end()), v(i->second.begin(), i->second.end()); if (!f(buf(k), buf(v))) return; }
    }
    dev::h256 hashBase() const override { return {}; }
    bool discardCreatedBatches() override { ++discards; return false; }
};
inline std::string rkey(h::Rng& r, bool allowEmpty = false) {
    static const char al[] = {'0', '1', '\x02', 'a', '\x00', '\x80', '\xff', '/'};
    size_t n = r.below(r.chance(1, 8) ? 40 : 4) + (allowEmpty ? 0 : 1); std::string s; for (size_t i = 0; i < n; ++i) s += r.chance(1, 6) ? (char)r.below(256) : al[r.below(sizeof al)]; return s;
}
inline std::string show(Map const& m) { std::string s; for (auto& e : m) s += h::hex(e.first) + "=" + h::hex(e.second) + " "; return s; }
using Seq = std::vector<std::pair<std::string, std::string>>;
inline std::string show(Seq const& m) { std::string s; for (auto& e : m) s += h::hex(e.first) + "=" + h::hex(e.second) + " "; return s; }
template <class D> Seq each(D const& d, size_t stop = ~size_t(0), size_t* calls = nullptr) { Seq s; size_t n = 0; d.forEach([&](Sl k, Sl v) { s.push_back({st(k), st(v)}); return ++n < stop; }); if (calls) *calls = n; return s; }
template <class D> Seq eachP(D const& d, std::string p, size_t stop = ~size_t(0)) { Seq s; size_t n = 0; d.forEachWithPrefix(p, [&](Sl k, Sl v) { s.push_back({st(k), st(v)}); return ++n < stop; }); return s; }
inline Seq seqOf(Map const& m, std::string const& p = {}, size_t stop = ~size_t(0)) { Seq s; for (auto& e : m) if (e.first.compare(0, p.size(), p) == 0 && s.size() < stop) s.push_back(e); return s; }
