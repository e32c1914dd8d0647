// request and connection limits: a reference that keeps all calls ever made against the library
#include "h.hpp"
#include <skutils/unddos.h>
using h::Rng;
using namespace skutils::unddos;
typedef e_high_load_detection_result_t R;
struct Ref {
    settings st;
    struct O { std::vector<time_t> calls; time_t ban = 0; };
    std::map<std::string, O> os; O glob; std::map<std::string, size_t> ws; size_t wsAll = 0;
    static bool banned(const O& o, time_t now) { return o.ban != 0 && now <= o.ban; }
    static size_t in(const O& o, time_t now, time_t d) { size_t n = 0; for (auto t : o.calls) if (now - d <= t && t <= now) ++n; return n; }
    static bool wild(const char* w, const char* s) { if (!*w) return !*s; if (*w == '*') return wild(w + 1, s) || (*s && wild(w, s + 1)); return *s && (*w == '?' || *w == *s) && wild(w + 1, s + 1); }
    static origin_entry_setting friendly() { origin_entry_setting e; e.max_calls_per_second_ = 500; e.max_calls_per_minute_ = 15000; e.ban_peak_ = 15; e.ban_lengthy_ = 120; e.max_ws_conn_ = 50; return e; }
    origin_entry_setting rule(const std::string& o) const {
        for (auto& e : st.origins_) for (auto& w : e.origin_wildcards_) if (wild(w.c_str(), o.c_str())) return e;
        for (auto& e : st.origins_) for (auto& w : e.origin_wildcards_) if (wild(w.c_str(), "*")) return e;
        return friendly();   // the rule for every origin, appended when there is none
    }
    static size_t lim(size_t base, const origin_entry_setting& e, const char* m, bool sec) { if (!m || !*m) return base; auto i = e.map_custom_method_settings_.find(m); return i == e.map_custom_method_settings_.end() ? base : std::max(base, sec ? i->second.max_calls_per_second_ : i->second.max_calls_per_minute_); }
    R call(const std::string& o, const char* m, time_t now) {
        if (!st.enabled_) return R::ehldr_no_error;
        if (o.empty()) return R::ehldr_bad_origin;
        glob.calls.push_back(now); if (banned(glob, now)) return R::ehldr_ban;
        O& x = os[o]; x.calls.push_back(now); if (banned(x, now)) return R::ehldr_ban;
        origin_entry_setting e = rule(o); const origin_entry_setting& g = st.global_limit_;
        for (int k = 0; k < 2; ++k) {
            O& q = k ? glob : x; const origin_entry_setting& s = k ? g : e; size_t l = lim(s.max_calls_per_minute_, s, m, false);
            if (l && in(q, now, 60) > l) { q.ban = now + s.ban_lengthy_; return R::ehldr_lengthy; }
            l = lim(s.max_calls_per_second_, s, m, true); if (l && in(q, now, 1) > l) { q.ban = now + s.ban_peak_; return R::ehldr_peak; }
        }
        return R::ehldr_no_error;
    }
};
static const char* NAMES[] = {"no_error", "peak", "lengthy", "bad_origin", "ban"};
static size_t lim(Rng& g) { switch (g.below(6)) { case 0: return 0; case 1: return 1 + g.below(3); case 2: return 10 + g.below(12); case 3: return 14 + g.below(4); case 4: return 20 + g.below(40); default: return std::numeric_limits<size_t>::max(); } }
static origin_entry_setting entry(Rng& g) { origin_entry_setting e; e.max_calls_per_second_ = lim(g); e.max_calls_per_minute_ = lim(g); e.ban_peak_ = g.below(10); e.ban_lengthy_ = g.chance(1, 3) ? 60 + g.below(100) : g.below(30); e.max_ws_conn_ = g.chance(1, 6) ? 0 : lim(g); if (g.chance(1, 3)) { custom_method_setting c; c.max_calls_per_second_ = lim(g); c.max_calls_per_minute_ = lim(g); e.map_custom_method_settings_["eth_m"] = c; } return e; }
static std::string show(const origin_entry_setting& e) { std::ostringstream s; for (auto& w : e.origin_wildcards_) s << w << ","; s << " s" << e.max_calls_per_second_ << " m" << e.max_calls_per_minute_ << " bp" << e.ban_peak_ << " bl" << e.ban_lengthy_ << " ws" << e.max_ws_conn_; for (auto& c : e.map_custom_method_settings_) s << " " << c.first << ":s" << c.second.max_calls_per_second_ << ":m" << c.second.max_calls_per_minute_; return s.str() + "; "; }
static bool same(const origin_entry_setting& a, const origin_entry_setting& b) { return show(a) == show(b); }
static settings mk(Rng& g, std::ostringstream& os) {
    static const char* wl[] = {"*", "1.1.1.1", "1.1.*", "2.2.2.2", "?.3.3.3", "127.0.0.*", "::1", "1.*.1.?"};
    settings s; for (unsigned i = 0, n = g.below(4); i < n; ++i) { auto e = entry(g); for (unsigned k = 0, m = 1 + g.below(2); k < m; ++k) e.origin_wildcards_.push_back(wl[g.below(8)]); s.origins_.push_back(e); os << show(e); }
    if (g.chance(1, 2)) s.global_limit_.load_unlim_for_any_origin(); else { s.global_limit_ = entry(g); s.global_limit_.origin_wildcards_.push_back("*"); if (g.chance(2, 3)) { if (s.global_limit_.max_calls_per_second_ < 20) s.global_limit_.max_calls_per_second_ = 20; if (s.global_limit_.max_calls_per_minute_ < 20) s.global_limit_.max_calls_per_minute_ = 40; } }
    s.enabled_ = !g.chance(1, 20); os << "global " << show(s.global_limit_) << (s.enabled_ ? "" : "disabled "); return s;
}
static void run(Rng& g) {
    std::ostringstream os; settings s = mk(g, os); algorithm a; Ref r;
    if (g.chance(1, 3)) { nlohmann::json j; s.toJSON(j); bool ok = a.load_settings_from_json(nlohmann::json::parse(j.dump())); H_CHECK(ok, "unddos.load-settings", j.dump()); if (!ok) return; os << "json "; } else if (g.chance(1, 2)) a.set_settings(s); else a = s;
    r.st = s;
    static const char* ol[] = {"1.1.1.1", "1.1.2.2", "2.2.2.2", "3.3.3.3", "127.0.0.5", "::1", "9.9.9.9", "1.5.1.1", ""};
    time_t now = 1000000 + g.below(1000); unsigned no = 1 + g.below(4); unsigned who[4]; for (auto& w : who) w = g.below(g.chance(1, 8) ? 9 : 8); os << "ops=";
    std::vector<std::string> open;
    for (unsigned i = 0, n = 5 + g.below(120); i < n; ++i) {
        switch (g.below(12)) { case 0: now += 1; break; case 1: now += g.below(5); break; case 2: if (g.chance(1, 3)) now += g.below(140); break; case 3: if (g.chance(1, 4)) now += 59 + g.below(4); break; case 4: { if (g.chance(1, 2)) break; time_t b = g.chance(1, 2) ? r.glob.ban : r.os[ol[who[0]]].ban; if (b > now) now = b + g.below(2); break; } default: break; }
        std::string o = ol[who[g.below(no)]]; const char* m = g.chance(1, 4) ? (g.chance(1, 2) ? "eth_m" : "eth_other") : nullptr;
        unsigned rep = g.chance(1, 12) ? 1 + g.below(70) : 1;
        for (unsigned k = 0; k < rep; ++k) { R x = a.register_call_from_origin(o.c_str(), m, now), y = r.call(o, m, now); if (k == 0) os << o << (m ? m : "") << "@" << now - 1000000 << "x" << rep << " "; if (x != y) { os << "(call " << k + 1 << ")"; H_CHECK(false, std::string("unddos.call.") + (y == R::ehldr_no_error ? "refused-within-limits" : x == R::ehldr_no_error ? "admitted-above-limits" : "result"), os.str() << " got=" << NAMES[int(x)] << " expected=" << NAMES[int(y)]); return; } }
        if (g.chance(1, 10)) { a.unload_old_data_by_time_to_past(now); os << "unload "; }
        if (g.chance(1, 20)) { a.stats(now); os << "stats "; }
        if (g.chance(1, 5)) {   // connections
            std::string w = ol[who[g.below(no)]]; origin_entry_setting e = r.rule(w);
            if (g.chance(2, 3)) { for (unsigned k = 0, q = 1 + (g.chance(1, 6) ? g.below(60) : 0); k < q; ++k) { R x = a.register_ws_conn_for_origin(w), y = !s.enabled_ ? R::ehldr_no_error : w.empty() ? R::ehldr_bad_origin : r.wsAll >= s.global_limit_.max_ws_conn_ || r.ws[w] >= e.max_ws_conn_ ? R::ehldr_peak : R::ehldr_no_error; os << "+" << w << " "; if (y == R::ehldr_no_error && s.enabled_) { ++r.wsAll; ++r.ws[w]; } H_CHECK(x == y, "unddos.ws.register", os.str() << " got=" << NAMES[int(x)] << " expected=" << NAMES[int(y)] << " open connections of the origin " << r.ws[w] << " of all " << r.wsAll); if (x != y) return; } }
            else if (s.enabled_) { bool have = r.ws[w] > 0; bool x = a.unregister_ws_conn_for_origin(w); os << "-" << w << " "; if (have) { --r.ws[w]; --r.wsAll; } H_CHECK(x == (have && !w.empty()), "unddos.ws.unregister", os.str() << " got=" << x); }
        }
    }
    h::count(os.str());
}
static void json(Rng& g) {
    std::ostringstream os; settings s = mk(g, os); nlohmann::json j; s.toJSON(j); settings t; try { t.fromJSON(j); } catch (std::exception& e) { H_CHECK(false, "unddos.json.throws", j.dump() << " " << e.what()); return; }
    bool ok = t.enabled_ == s.enabled_ && same(t.global_limit_, s.global_limit_) && t.origins_.size() == s.origins_.size(); for (size_t i = 0; ok && i < t.origins_.size(); ++i) ok = same(t.origins_[i], s.origins_[i]);
    H_CHECK(ok, "unddos.json", j.dump()); settings c(s); ok = same(c.global_limit_, s.global_limit_) && c.origins_.size() == s.origins_.size() && c.enabled_ == s.enabled_; for (size_t i = 0; ok && i < c.origins_.size(); ++i) ok = same(c.origins_[i], s.origins_[i]); H_CHECK(ok, "unddos.copy", os.str()); h::count(os.str());
    // counting in a window
    tracked_origin to("x"); std::vector<time_t> ts; time_t t0 = 1000; for (int i = 0, n = g.below(60); i < n; ++i) { t0 += g.below(4) ? 0 : g.below(20); ts.push_back(t0); to.time_entries_.push_back(time_entry(t0)); }
    time_t now = t0 + g.below(30), d = g.below(70); size_t e = 0; for (auto x : ts) e += now - d <= x && x <= now; size_t st = g.chance(1, 2) ? size_t(-1) : 1 + g.below(20); size_t c2 = to.count_to_past(now, d, st);
    H_CHECK(c2 == e, "unddos.count_to_past", "now=" << now << " window=" << d << " steps=" << st << " got=" << c2 << " expected=" << e);
    size_t r0 = 0; if (d) for (auto x : ts) r0 += x < now - d; size_t rr = to.unload_old_data_by_time_to_past(now, d); H_CHECK(rr == r0 && to.time_entries_.size() == ts.size() - r0 && to.count_to_past(now, d) == e, "unddos.unload", "now=" << now << " window=" << d << " got=" << rr << " expected=" << r0);
    size_t mx = g.below(40), sz = to.time_entries_.size(); rr = to.unload_old_data_by_count(mx); H_CHECK(rr == (sz > mx ? sz - mx : 0) && (to.time_entries_.empty() || to.time_entries_.back().ttm_ == ts.back()), "unddos.unload-count", "max=" << mx << " got=" << rr);
    // wild cards
    static const char al[] = "*?ab."; std::string w, x; for (int i = 0, n = g.below(7); i < n; ++i) w += al[g.below(5)]; for (int i = 0, n = g.below(8); i < n; ++i) x += al[2 + g.below(3)];
    H_CHECK(skutils::tools::wildcmp(w.c_str(), x.c_str()) == Ref::wild(w.c_str(), x.c_str()), "unddos.wildcmp", "'" << w << "' '" << x << "'");
}
int main(int argc, char** argv) { h::init(argc, argv); Rng g(h::seed); while (h::more()) { for (int i = 0; i < 10; ++i) run(g); for (int i = 0; i < 20; ++i) json(g); } return h::done(); }
