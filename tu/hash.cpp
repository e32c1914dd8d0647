// instantiations of the templates the hash units verify (no logic of its own)
#include <libdevcore/FixedHash.h>
#define INST(N) template class dev::FixedHash<N>;
INST(8) INST(20) INST(32) INST(256)
template class dev::SecureFixedHash<32>;
template dev::FixedHash<32>::FixedHash(dev::FixedHash<20> const&, ConstructFromHashType);
template dev::FixedHash<20>::FixedHash(dev::FixedHash<32> const&, ConstructFromHashType);
template dev::FixedHash<256>& dev::FixedHash<256>::shiftBloom<3, 32>(dev::FixedHash<32> const&);
template bool dev::FixedHash<256>::containsBloom<3, 32>(dev::FixedHash<32> const&);
template dev::FixedHash<256> dev::FixedHash<32>::bloomPart<3, 256>() const;
namespace { dev::h160 r160(dev::h256 const& x) { return dev::right160(x); } }
