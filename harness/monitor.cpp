// rotation schedule: a model schedule against the monitor working in a scratch directory
#include "h.hpp"
#include <libethereum/InstanceMonitor.h>
#include <libdevcore/StatusAndControl.h>
#include <json.hpp>
using h::Rng;
struct Rec : StatusAndControl { std::vector<std::array<bool, 4>> log; void on_change() override { log.push_back({getExitState(ClearDataDir), getExitState(StartAgain), getExitState(StartFromSnapshot), getExitState(ExitTimeReached)}); } };
struct Mon : InstanceMonitor { using InstanceMonitor::InstanceMonitor; fs::path file() const { return rotationInfoFilePath(); } uint64_t ts() const { return rotationTimestamp(); } };
static fs::path dir;
static void put(const fs::path& p, const std::string& s) { std::ofstream f(p.string(), std::ios::binary); f << s; }
static std::string slurp(const fs::path& p) { std::ifstream f(p.string()); return std::string(std::istreambuf_iterator<char>(f), {}); }
enum Sched { None, Bad, At };
static void ask(const Mon& m, Sched s, uint64_t t, uint64_t b, const std::string& how) {
    bool r; try { r = m.isTimeToRotate(b); } catch (std::exception& e) { H_CHECK(false, "monitor.isTimeToRotate.throws", how << " block timestamp=" << b << " " << e.what()); return; } catch (...) { H_CHECK(false, "monitor.isTimeToRotate.throws", how << " block timestamp=" << b); return; }
    bool e = s == At && b >= t; H_CHECK(r == e, "monitor.isTimeToRotate", how << " block timestamp=" << b << " got=" << r << " expected=" << e);
}
static const char* unreadable[] = {"", " ", "Broken file", "{", "{}", "[]", "null", "7", "\"7\"", "{\"timestamp\":}", "{\"timestamp\":null}", "{\"timestamp\":\"12\"}", "{\"timestamp\":[1]}", "{\"timestamp\":{}}", "{\"Timestamp\":1}", "{\"time\":1}", "{\"timestamp\":1", "{\"timestamp\":1}}", "{\"timestamp\":1} x", "[{\"timestamp\":1}]", "timestamp=1", "{\"a\":{\"timestamp\":1}}", "\x00\x01"};
static void run(Rng& g) {
    auto rec = std::make_shared<Rec>(); bool withStatus = !g.chance(1, 8); Sched s = None; uint64_t t = 0; std::ostringstream os; os << "ops=";
    fs::path f = dir / "rotation.json"; fs::remove(f);
    if (g.chance(1, 4)) { t = g.edgy(); put(f, "{\"timestamp\":" + std::to_string(t) + "}"); s = At; os << "file:" << t << " "; }   // a schedule left by an earlier run of the node
    std::unique_ptr<Mon> m(new Mon(dir, withStatus ? rec : nullptr));
    H_CHECK(m->file() == f, "monitor.path", m->file().string());
    auto exitIs = [&](bool v, const char* what) { if (withStatus) { H_CHECK(rec->getExitState(StatusAndControl::ExitTimeReached) == v, "monitor.exit-state", os.str() << " after " << what << " got=" << !v); H_CHECK(!rec->getExitState(StatusAndControl::ClearDataDir) && !rec->getExitState(StatusAndControl::StartAgain) && !rec->getExitState(StatusAndControl::StartFromSnapshot), "monitor.other-exit-states", os.str()); } };
    bool reached = false; exitIs(false, "construction"); if (withStatus) H_CHECK(!rec->log.empty(), "monitor.exit-state-reported", "construction reports nothing");
    for (int i = 0, n = 1 + g.below(12); i < n; ++i) {
        switch (g.below(8)) {
        case 0: case 1: case 2: t = g.edgy(); os << "init:" << t << " "; m->initRotationParams(t); s = At; { try { uint64_t r = m->ts(); H_CHECK(r == t, "monitor.rotationTimestamp", os.str() << " got=" << r); } catch (...) { H_CHECK(false, "monitor.rotationTimestamp.throws", os.str()); }
            try { auto j = nlohmann::json::parse(slurp(f)); H_CHECK(j.is_object() && j.size() == 1 && j["timestamp"].is_number_unsigned() && j["timestamp"].get<uint64_t>() == t, "monitor.file", os.str() << " contents=" << slurp(f)); } catch (...) { H_CHECK(false, "monitor.file", os.str() << " contents=" << slurp(f)); } } break;
        case 3: { size_t before = rec->log.size(); os << "prepare "; m->prepareRotation(); s = None; reached = true; H_CHECK(!fs::exists(f), "monitor.schedule-removed", os.str()); if (withStatus) H_CHECK(rec->log.size() > before && rec->log.back()[3], "monitor.exit-state-reported", os.str()); break; }
        case 4: { const char* c = unreadable[g.below(sizeof(unreadable) / sizeof(*unreadable))]; os << "bad:'" << c << "' "; put(f, c); s = Bad; bool threw = false; try { m->ts(); } catch (std::exception&) { threw = true; } H_CHECK(threw, "monitor.rotationTimestamp.unreadable", os.str()); break; }
        case 5: os << "gone "; fs::remove(f); s = None; break;
        case 6: os << "restart "; rec = std::make_shared<Rec>(); m.reset(new Mon(dir, withStatus ? rec : nullptr)); reached = false; break;
        case 7: { t = g.edgy(); const char* fm[] = {"{\"timestamp\":%}", " { \"timestamp\" : % }\n", "{\"x\":[1,{}],\"timestamp\":%,\"y\":null}", "{\"timestamp\":%}\n\n"}; std::string c = fm[g.below(4)]; c.replace(c.find('%'), 1, std::to_string(t)); os << "file:" << c << " "; put(f, c); s = At; break; }
        }
        exitIs(reached, "step");
        for (uint64_t b : {uint64_t(0), uint64_t(1), t, t + 1, t - 1, ~uint64_t(0), g.edgy()}) ask(*m, s, t, b, os.str());
        bool there = fs::exists(f); H_CHECK(there == (s != None), "monitor.queries-keep-the-schedule", os.str());
    }
    fs::remove(f); h::count(os.str());
}
// status flags of the node and the status file
static void status(Rng& g) {
    fs::path p = dir / "skaled.status"; fs::remove(p);
    std::array<bool, 6> ss{}; std::array<bool, 4> ex{}; std::ostringstream os; os << "status ops=";
    {
        StatusAndControlFile f(dir);
        for (int i = 0, n = 1 + g.below(10); i < n; ++i) {
            unsigned k = g.below(6), e = g.below(4); bool v = g.chance(1, 2);
            if (g.chance(1, 2)) { f.setSubsystemRunning(StatusAndControl::Subsystem(k), v); ss[k] = v; os << "s" << k << v << " "; } else { f.setExitState(StatusAndControl::ExitState(e), v); ex[e] = v; os << "e" << e << v << " "; }
            for (unsigned q = 0; q < 6; ++q) H_CHECK(f.isSubsystemRunning(StatusAndControl::Subsystem(q)) == ss[q], "status.subsystem", os.str() << " " << q);
            for (unsigned q = 0; q < 4; ++q) H_CHECK(f.getExitState(StatusAndControl::ExitState(q)) == ex[q], "status.exit-state", os.str() << " " << q);
            auto check = [&] { try { auto j = nlohmann::json::parse(slurp(p)); for (unsigned q = 0; q < 4; ++q) H_CHECK(j["exitState"].at(f.exitStateString[q]).get<bool>() == ex[q], "status.file.exit-state", os.str() << " " << q << " " << j.dump());
                for (unsigned q : {0u, 1u, 2u, 5u}) H_CHECK(j["subsystemRunning"].at(f.subsystemString[q]).get<bool>() == ss[q], "status.file.subsystem", os.str() << " " << q << " " << j.dump()); } catch (std::exception& x) { H_CHECK(false, "status.file", os.str() << " " << x.what() << " contents=" << slurp(p)); } };
            check();
        }
    }
    H_CHECK(fs::exists(p) && !fs::exists(dir / "skaled.status.tmp"), "status.file", os.str()); fs::remove(p); h::count(os.str());
}
int main(int argc, char** argv) {
    h::init(argc, argv); Rng g(h::seed); boost::log::core::get()->set_logging_enabled(false);
    dir = fs::path(h::scratch) / "monitor"; fs::create_directories(dir);
    for (auto c : unreadable) { put(dir / "rotation.json", c); Mon m(dir); for (uint64_t b : {uint64_t(0), uint64_t(1), uint64_t(100), ~uint64_t(0)}) ask(m, Bad, 0, b, std::string("file contents '") + c + "'"); }
    fs::remove(dir / "rotation.json"); fs::create_directories(dir / "rotation.json"); { Mon m(dir); ask(m, Bad, 0, ~uint64_t(0), "a directory in place of the file"); } fs::remove(dir / "rotation.json");
    while (h::more()) { for (int i = 0; i < 20; ++i) run(g); status(g); }
    fs::remove_all(dir); return h::done();
}
