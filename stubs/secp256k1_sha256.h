/* Stand-in for the SKALE secp256k1 fork's SHA-256 interface (CryptoPP does the work). */
#pragma once
#include <cstddef>
#include <cryptopp/sha.h>
struct secp256k1_sha256_t { CryptoPP::SHA256 h; };
inline void secp256k1_sha256_initialize( secp256k1_sha256_t* c ) { c->h.Restart(); }
inline void secp256k1_sha256_write( secp256k1_sha256_t* c, const unsigned char* d, size_t n ) { c->h.Update( d, n ); }
inline void secp256k1_sha256_write( secp256k1_sha256_t* c, const char* d, size_t n ) { c->h.Update( (const unsigned char*) d, n ); }
inline void secp256k1_sha256_finalize( secp256k1_sha256_t* c, unsigned char* out ) { c->h.Final( out ); }
