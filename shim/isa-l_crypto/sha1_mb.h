#pragma once
#include "multi_buffer.h"
#define SHA1_DIGEST_NWORDS 5
namespace isal_shim {
struct sha1_alg {
    using word = uint32_t; static constexpr int nwords = 5; static constexpr uint32_t block = 64; using state = SHA_CTX;
    static void start(state* s) { SHA1_Init(s); }
    static void update(state* s, const void* b, uint32_t n) { SHA1_Update(s, b, n); }
    static void final(state* s, word* w) { uint8_t d[nwords * sizeof(word)]; SHA1_Final(d, s); for (int i = 0; i < nwords; ++i) w[i] = be<word>(d + i * sizeof(word)); }
};
}
typedef isal_shim::ctx_t<isal_shim::sha1_alg> SHA1_HASH_CTX;
typedef isal_shim::mgr_t<isal_shim::sha1_alg> SHA1_HASH_CTX_MGR;
inline void sha1_ctx_mgr_init(SHA1_HASH_CTX_MGR* m) { isal_shim::init(m); }
inline SHA1_HASH_CTX* sha1_ctx_mgr_submit(SHA1_HASH_CTX_MGR* m, SHA1_HASH_CTX* c, const void* b, uint32_t n, HASH_CTX_FLAG f) { return isal_shim::submit(m, c, b, n, f); }
inline SHA1_HASH_CTX* sha1_ctx_mgr_flush(SHA1_HASH_CTX_MGR* m) { return isal_shim::take(m); }
