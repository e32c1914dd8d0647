// libdevcrypto/Common.cpp of the repository, with the one function declared that the installed secp256k1 lacks
struct secp256k1_context_struct; struct secp256k1_pubkey_shim;
#include <secp256k1.h>
static inline int secp256k1_ecdh_raw(const secp256k1_context*, unsigned char*, const secp256k1_pubkey*, const unsigned char*) { return 0; }
#include <libdevcrypto/Common.cpp>
