PROP = 'C23'
EDITS = {'libskutils/src/unddos.cpp': [('            tracked_global_.ban_until_ = ttmNow + settings_.global_limit_.ban_lengthy_;', '            tracked_global_.ban_until_ = std::min(\n                ttmNow + settings_.global_limit_.ban_lengthy_, ttmNow + oe.ban_lengthy_ );')]}
NEEDS = 'a global ban by the per-minute limit while the rule of the origin has a shorter ban'
BREAKS = 'the global ban ends too early'
DEMO = r'''
#include <skutils/unddos.h>
using namespace skutils::unddos;
int main() {
    settings s; origin_entry_setting e; e.load_unlim_for_any_origin(); e.ban_lengthy_ = 2; s.origins_.push_back( e );
    s.global_limit_.load_unlim_for_any_origin(); s.global_limit_.max_calls_per_minute_ = 3; s.global_limit_.ban_lengthy_ = 20;
    algorithm a( s ); time_t t = 1000000; using R = e_high_load_detection_result_t;
    for ( int i = 0; i < 3; ++i ) if ( a.register_call_from_origin( "1.1.1.1", nullptr, t ) != R::ehldr_no_error ) return 2;
    if ( a.register_call_from_origin( "2.2.2.2", nullptr, t ) != R::ehldr_lengthy ) return 3;
    for ( int d : { 1, 2, 3, 10, 20 } ) if ( a.register_call_from_origin( "2.2.2.2", nullptr, t + d ) != R::ehldr_ban ) return 1;
    return 0;
}
'''
SOURCES = ['libskutils/src/unddos.cpp']
LIBS = '_build/libskutils.a _build/libjson_spirit.a -lboost_system -lboost_filesystem -lpthread'
CXX = 'clang++'
STUBS = True
COPY = []
