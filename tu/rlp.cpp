// instantiations of the templates the RLP units verify (no logic of its own)
#include <libdevcore/RLP.cpp>
template unsigned dev::RLP::toInt<unsigned>(int) const;
template uint64_t dev::RLP::toInt<uint64_t>(int) const;
template dev::u256 dev::RLP::toInt<dev::u256>(int) const;
template dev::h256 dev::RLP::toHash<dev::h256>(int) const;
template dev::h160 dev::RLP::toHash<dev::h160>(int) const;
