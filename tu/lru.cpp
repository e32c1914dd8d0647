#include <cstdint>
#include <cstddef>
#include <libdevcore/LruCache.h>
template class dev::LruCache< uint64_t, uint64_t >;
