#include <libdevcore/TrieCommon.cpp>
namespace { void use(dev::NibbleSlice a, dev::NibbleSlice b, dev::RLP const& r) { dev::keyOf(a.data); dev::keyOf(r); dev::isLeaf(r); a.clear(); a.contains(b); a.isEarlierThan(b); (void)(a == b); (void)(a != b); a.mid(1); a.empty(); (void)a[0]; dev::hexPrefixEncode(a, true); dev::hexPrefixEncode(a, b, true); } }
