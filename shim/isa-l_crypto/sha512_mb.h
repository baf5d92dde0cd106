#pragma once
#include "multi_buffer.h"
#define SHA512_DIGEST_NWORDS 8
namespace isal_shim {
struct sha512_alg {
    using word = uint64_t; static constexpr int nwords = 8; static constexpr uint32_t block = 128; using state = SHA512_CTX;
    static void start(state* s) { SHA512_Init(s); }
    static void update(state* s, const void* b, uint32_t n) { SHA512_Update(s, b, n); }
    static void final(state* s, word* w) { uint8_t d[nwords * sizeof(word)]; SHA512_Final(d, s); for (int i = 0; i < nwords; ++i) w[i] = be<word>(d + i * sizeof(word)); }
};
}
typedef isal_shim::ctx_t<isal_shim::sha512_alg> SHA512_HASH_CTX;
typedef isal_shim::mgr_t<isal_shim::sha512_alg> SHA512_HASH_CTX_MGR;
inline void sha512_ctx_mgr_init(SHA512_HASH_CTX_MGR* m) { isal_shim::init(m); }
inline SHA512_HASH_CTX* sha512_ctx_mgr_submit(SHA512_HASH_CTX_MGR* m, SHA512_HASH_CTX* c, const void* b, uint32_t n, HASH_CTX_FLAG f) { return isal_shim::submit(m, c, b, n, f); }
inline SHA512_HASH_CTX* sha512_ctx_mgr_flush(SHA512_HASH_CTX_MGR* m) { return isal_shim::take(m); }
