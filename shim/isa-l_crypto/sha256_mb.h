#pragma once
#include "multi_buffer.h"
#define SHA256_DIGEST_NWORDS 8
namespace isal_shim {
struct sha256_alg {
    using word = uint32_t; static constexpr int nwords = 8; static constexpr uint32_t block = 64; using state = SHA256_CTX;
    static void start(state* s) { SHA256_Init(s); }
    static void update(state* s, const void* b, uint32_t n) { SHA256_Update(s, b, n); }
    static void final(state* s, word* w) { uint8_t d[nwords * sizeof(word)]; SHA256_Final(d, s); for (int i = 0; i < nwords; ++i) w[i] = be<word>(d + i * sizeof(word)); }
};
}
typedef isal_shim::ctx_t<isal_shim::sha256_alg> SHA256_HASH_CTX;
typedef isal_shim::mgr_t<isal_shim::sha256_alg> SHA256_HASH_CTX_MGR;
inline void sha256_ctx_mgr_init(SHA256_HASH_CTX_MGR* m) { isal_shim::init(m); }
inline SHA256_HASH_CTX* sha256_ctx_mgr_submit(SHA256_HASH_CTX_MGR* m, SHA256_HASH_CTX* c, const void* b, uint32_t n, HASH_CTX_FLAG f) { return isal_shim::submit(m, c, b, n, f); }
inline SHA256_HASH_CTX* sha256_ctx_mgr_flush(SHA256_HASH_CTX_MGR* m) { return isal_shim::take(m); }
