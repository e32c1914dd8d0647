// Stand-in for ethash/keccak.hpp: a plain Keccak-256 with the same interface.
#pragma once
#include "hash_types.hpp"
namespace ethash {
inline void vpKeccakF( uint64_t st[25] ) noexcept {
    static const uint64_t rc[24] = { 0x0000000000000001ULL, 0x0000000000008082ULL,
        0x800000000000808aULL, 0x8000000080008000ULL, 0x000000000000808bULL, 0x0000000080000001ULL,
        0x8000000080008081ULL, 0x8000000000008009ULL, 0x000000000000008aULL, 0x0000000000000088ULL,
        0x0000000080008009ULL, 0x000000008000000aULL, 0x000000008000808bULL, 0x800000000000008bULL,
        0x8000000000008089ULL, 0x8000000000008003ULL, 0x8000000000008002ULL, 0x8000000000000080ULL,
        0x000000000000800aULL, 0x800000008000000aULL, 0x8000000080008081ULL, 0x8000000000008080ULL,
        0x0000000080000001ULL, 0x8000000080008008ULL };
    static const int rotc[24] = { 1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43,
        62, 18, 39, 61, 20, 44 };
    static const int piln[24] = { 10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2,
        20, 14, 22, 9, 6, 1 };
    for ( int r = 0; r < 24; r++ ) {
        uint64_t bc[5], t;
        for ( int i = 0; i < 5; i++ )
            bc[i] = st[i] ^ st[i + 5] ^ st[i + 10] ^ st[i + 15] ^ st[i + 20];
        for ( int i = 0; i < 5; i++ ) {
            t = bc[( i + 4 ) % 5] ^ ( ( bc[( i + 1 ) % 5] << 1 ) | ( bc[( i + 1 ) % 5] >> 63 ) );
            for ( int j = 0; j < 25; j += 5 )
                st[j + i] ^= t;
        }
        t = st[1];
        for ( int i = 0; i < 24; i++ ) {
            int j = piln[i];
            bc[0] = st[j];
            st[j] = ( t << rotc[i] ) | ( t >> ( 64 - rotc[i] ) );
            t = bc[0];
        }
        for ( int j = 0; j < 25; j += 5 ) {
            for ( int i = 0; i < 5; i++ )
                bc[i] = st[j + i];
            for ( int i = 0; i < 5; i++ )
                st[j + i] ^= ( ~bc[( i + 1 ) % 5] ) & bc[( i + 2 ) % 5];
        }
        st[0] ^= rc[r];
    }
}
inline hash256 keccak256( const uint8_t* data, size_t size ) noexcept {
    uint64_t st[25] = {};
    uint8_t blk[136];
    while ( size >= 136 ) {
        std::memcpy( blk, data, 136 );
        for ( int i = 0; i < 17; i++ ) { uint64_t w; std::memcpy( &w, blk + 8 * i, 8 ); st[i] ^= w; }
        vpKeccakF( st );
        data += 136;
        size -= 136;
    }
    std::memset( blk, 0, 136 );
    if ( size ) std::memcpy( blk, data, size );
    blk[size] = 0x01;
    blk[135] |= 0x80;
    for ( int i = 0; i < 17; i++ ) { uint64_t w; std::memcpy( &w, blk + 8 * i, 8 ); st[i] ^= w; }
    vpKeccakF( st );
    hash256 h;
    std::memcpy( h.bytes, st, 32 );
    return h;
}
inline hash256 keccak256_32( const uint8_t data[32] ) noexcept { return keccak256( data, 32 ); }
}
