// Stand-in for the ethash library's hash types (the third-party library is not in this sandbox).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
namespace ethash {
union hash256 { uint64_t word64s[4]; uint32_t word32s[8]; uint8_t bytes[32]; char str[32]; };
union hash512 { uint64_t word64s[8]; uint8_t bytes[64]; };
}
