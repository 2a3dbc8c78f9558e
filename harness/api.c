#include API
const unsigned long long api_sizes[4] = {CRYPTO_SECRETKEYBYTES, CRYPTO_PUBLICKEYBYTES, CRYPTO_BYTES, CRYPTO_CIPHERTEXTBYTES};
