// transactions, their encodings and signatures, as one unit for extraction
#include <libethcore/TransactionBase.cpp>
#include <secp256k1.h>
// (declared here: the installed secp256k1 lacks it)
static inline int secp256k1_ecdh_raw(const secp256k1_context*, unsigned char*, const secp256k1_pubkey*, const unsigned char*) { return 0; }
#include <libdevcrypto/Common.cpp>
