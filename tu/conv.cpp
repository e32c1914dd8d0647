// instantiations of the templates the conversion units verify (no logic of its own)
#include <libdevcore/CommonData.cpp>
#include <libdevcore/CommonJS.cpp>
template std::string dev::toHex<dev::bytes>(dev::bytes const&);
template std::string dev::toHexPrefixed<dev::bytes>(dev::bytes const&);
template dev::u256 dev::fromBigEndian<dev::u256, dev::bytes>(dev::bytes const&);
template uint64_t dev::fromBigEndian<uint64_t, dev::bytes>(dev::bytes const&);
template dev::bytes dev::toCompactBigEndian<dev::u256>(dev::u256, unsigned);
template dev::bytes dev::toCompactBigEndian<uint64_t>(uint64_t, unsigned);
template unsigned dev::bytesRequired<uint64_t>(uint64_t);
template dev::u256 dev::jsToInt<32>(std::string const&);
template std::string dev::toJS<256>(dev::u256 const&);
template unsigned dev::commonPrefix<dev::bytes, dev::bytes>(dev::bytes const&, dev::bytes const&);
namespace { dev::bytes useBE(dev::u256 v) { return dev::toBigEndian(v); } }
