// instantiates the member templates of RangeMask the units verify (no logic of its own)
#include <libdevcore/RangeMask.h>
namespace {
dev::RangeMask sub(dev::RangeMask const& a, unsigned b) { return a - b; }
dev::RangeMask sub(dev::RangeMask const& a, dev::RangeMask::Range const& b) { return a - b; }
dev::RangeMask sub(dev::RangeMask const& a, dev::RangeMask const& b) { return a - b; }
}
