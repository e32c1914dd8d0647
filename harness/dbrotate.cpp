// C13: a rotating database against a list of maps, newest first
#include "memdb.hpp"
#include <libbatched-io/batched_rotating_db_io.h>
#include <libdevcore/ManuallyRotatingLevelDB.h>
#include <boost/filesystem.hpp>
#include <boost/log/core.hpp>
#include <sys/wait.h>
#include <unistd.h>
using namespace dev; using namespace dev::db; using batched_io::rotating_db_io;
static const std::string MARK = "ead48ec575aaa7127384dee432fc1c02d9f6a22950234e5ecf59f35ed9f6e78d";
struct Ref { size_t n; bool arch; std::deque<Map> p; // newest first; pieces from index n on are archives
    Ref(size_t n_, bool a) : n(n_), arch(a), p(n_) {}
    void rotate() { if (!arch) p.erase(p.begin() + n - 1); p.push_front({}); }
    const std::string* find(std::string const& k) const { for (auto& m : p) { auto i = m.find(k); if (i != m.end()) return &i->second; } return nullptr; } };
static Seq noMark(Seq s) { Seq r; for (auto& e : s) if (e.first != MARK) r.push_back(e); return r; }
static void compare(ManuallyRotatingLevelDB& d, Ref const& f, h::Rng& r, std::string const& hist) {
    for (int i = 0; i < 4; ++i) { std::string k(1, "abcdfg"[r.below(6)]); auto* w = f.find(k);
        H_CHECK(d.exists(k) == (w != nullptr), "rotate-exists", "key " << k << " after" << hist); H_CHECK(d.lookup(k) == (w ? *w : ""), "rotate-lookup", "key " << k << " got '" << h::hex(d.lookup(k)) << "' want '" << (w ? h::hex(*w) : "") << "' after" << hist); }
    Seq all; for (auto& m : f.p) for (auto& e : m) all.push_back(e);
    Seq got = noMark(each(d)); std::sort(got.begin(), got.end()); Seq w = all; std::sort(w.begin(), w.end()); H_CHECK(got == w, "rotate-forEach", "got " << show(got) << " want " << show(w) << " after" << hist);
    std::string p(1, "abcdfg"[r.below(6)]); Seq gp = eachP(d, p), wp; for (auto& e : w) if (e.first.compare(0, 1, p) == 0) wp.push_back(e); std::sort(gp.begin(), gp.end()); H_CHECK(gp == wp, "rotate-forEachWithPrefix", "got " << show(gp) << " want " << show(wp) << " after" << hist);
    if (!gp.empty()) { size_t stop = 1 + r.below(gp.size()); H_CHECK(eachP(d, p, stop).size() == stop, "rotate-prefix-stop", "the callback asked to stop after " << stop << " entries and was called " << eachP(d, p, stop).size() << " times after" << hist); }
    size_t n = all.size(); if (n) { size_t stop = 1 + r.below(n), calls = 0; each(d, stop, &calls); H_CHECK(calls == stop, "rotate-stop", "the callback asked to stop after " << stop << " entries and was called " << calls << " times after" << hist); }
    Seq cur = noMark(each(*d.currentPiece())); H_CHECK(cur == seqOf(f.p[0]), "rotate-current", "current piece " << show(cur) << " want " << show(f.p[0]) << " after" << hist);
}
struct Db { std::shared_ptr<rotating_db_io> io; std::unique_ptr<ManuallyRotatingLevelDB> d; Db(boost::filesystem::path const& p, size_t n, bool a) : io(std::make_shared<rotating_db_io>(p, n, a)), d(std::make_unique<ManuallyRotatingLevelDB>(io)) {} };
static void run(h::Rng& r, boost::filesystem::path const& p) {
    size_t n = 2 + r.below(4); bool a = r.chance(1, 2); boost::filesystem::create_directories(p); auto d = std::make_unique<Db>(p, n, a); Ref f(n, a); std::string hist = " pieces " + std::to_string(n) + (a ? " archive" : "");
    std::unique_ptr<WriteBatchFace> b; std::vector<Op> ops; int nop = 25;
    for (int i = 0; i < nop; ++i) {
        std::string k(1, "abcdfg"[r.below(6)]), v = r.chance(1, 6) ? "" : std::to_string(i);
        switch (r.below(9)) {
        case 0: case 1: d->d->insert(k, v); f.p[0][k] = v; hist += " ins " + k + "=" + v; break;
        case 2: d->d->kill(k); for (auto& m : f.p) m.erase(k); hist += " kill " + k; break;
        case 3: case 4: if (!b) b = d->d->createWriteBatch(); if (r.chance(3, 4)) { b->insert(k, v); ops.push_back({true, k, v}); hist += " bins " + k + "=" + v; } else if (f.p[0].count(k)) { b->kill(k); ops.push_back({false, k, v}); hist += " bkill " + k; } break;
        case 5: if (b) { d->d->commit(std::move(b)); b.reset(); for (auto& o : ops) if (o.ins) f.p[0][o.k] = o.v; else f.p[0].erase(o.k); ops.clear(); hist += " commit"; } break;
        case 6: case 7: if (b) { b.reset(); bool x = d->d->discardCreatedBatches(); H_CHECK(x, "rotate-discard", "a created batch was not known after" << hist); ops.clear(); hist += " discard"; } H_CHECK(!d->d->discardCreatedBatches(), "rotate-discard-none", "batches left after" << hist); d->d->rotate(); f.rotate(); hist += " rotate"; break;
        case 8: { b.reset(); ops.clear(); d.reset(); static const char* pts[] = {"after_recover", "after_rename_oldest", "after_remove_oldest", "after_open_leveldb", "with_two_keys"}; int c = n < 3 || r.chance(1, 2) ? -1 : (int)r.below(5); // (which of two marks is newer is known from 3 pieces on)
                // reopen, or rotate in a process that ends at a crash point
            if (c >= 0) { int e = again({"child", p.string(), std::to_string(n), a ? "1" : "0", pts[c]}); hist += std::string(" crash ") + pts[c]; H_CHECK(e == 33 || e == 0, "rotate-crash", "status " << e << " after" << hist);
                if (e == 0) f.rotate(); // the point was not on the way
                else if (c == 4) f.rotate(); // both marks written: the new piece counts
                else if (c == 1 || (c == 3 && a)) { f.p.insert(f.p.begin() + n - 1, Map()); } // archived, an empty piece in its place
                else if (c == 2 || c == 3) f.p[n - 1].clear(); }
            d = std::make_unique<Db>(p, n, a); hist += " reopen"; break; }
        }
        H_CHECK(d->d->piecesCount() == n && d->io->pieces_count() == n && size_t(d->io->end() - d->io->begin()) == f.p.size(), "rotate-count", "number of pieces after" << hist);
        compare(*d->d, f, r, hist);
    }
    h::count(hist); b.reset();
}
int main(int argc, char** argv) {
    if (argc == 6 && std::string(argv[1]) == "child") { boost::log::core::get()->set_logging_enabled(false); try { batched_io::test_enable_crash_at(argv[5]); Db x(argv[2], atoi(argv[3]), argv[4][0] == '1'); x.d->rotate(); } catch (...) { _exit(44); } _exit(0); }
    h::init(argc, argv); boost::log::core::get()->set_logging_enabled(false); h::Rng r(h::seed); boost::filesystem::path sc(h::scratch); unsigned long c = 0;
    while (h::more()) { auto p = sc / ("r" + std::to_string(c++)); run(r, p); boost::filesystem::remove_all(p); }
    return h::done();
}
