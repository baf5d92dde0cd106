#pragma once
#include "multi_buffer.h"
#define MD5_DIGEST_NWORDS 4
namespace isal_shim {
struct md5_alg {
    using word = uint32_t; static constexpr int nwords = 4; static constexpr uint32_t block = 64; using state = MD5_CTX;
    static void start(state* s) { MD5_Init(s); }
    static void update(state* s, const void* b, uint32_t n) { MD5_Update(s, b, n); }
    static void final(state* s, word* w) { uint8_t d[nwords * sizeof(word)]; MD5_Final(d, s); std::memcpy(w, d, sizeof d);  /* MD5 is little endian */ }
};
}
typedef isal_shim::ctx_t<isal_shim::md5_alg> MD5_HASH_CTX;
typedef isal_shim::mgr_t<isal_shim::md5_alg> MD5_HASH_CTX_MGR;
inline void md5_ctx_mgr_init(MD5_HASH_CTX_MGR* m) { isal_shim::init(m); }
inline MD5_HASH_CTX* md5_ctx_mgr_submit(MD5_HASH_CTX_MGR* m, MD5_HASH_CTX* c, const void* b, uint32_t n, HASH_CTX_FLAG f) { return isal_shim::submit(m, c, b, n, f); }
inline MD5_HASH_CTX* md5_ctx_mgr_flush(MD5_HASH_CTX_MGR* m) { return isal_shim::take(m); }
