// Stand-in for Intel ISA-L crypto's multi-buffer hashing (not installed here): same types, states and rules.
//  * A context is idle, processing or complete. Submitting a context that is processing, or continuing one that is
//    complete, sets its error and changes nothing else.
//  * A submitted buffer is read while the job is in a lane, that is until the job is returned: it is only copied at once
//    when it is shorter than a block and more data is to follow.
//  * submit returns a finished job or NULL, flush finishes one job or returns NULL when no lane is used.
// How many lanes there are and which job finishes first is left to the machine: isal_shim::lanes (0: every job is done
// when submit returns) and isal_shim::order choose.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/md5.h>
#include <openssl/sha.h>

namespace isal_shim {
inline int lanes = 8;
inline int order = 0;         // 0 shortest first, 1 first in first out, 2 last in first out, >2 pseudo-random
}
typedef enum { HASH_UPDATE = 0x00, HASH_FIRST = 0x01, HASH_LAST = 0x02, HASH_ENTIRE = 0x03 } HASH_CTX_FLAG;
typedef enum { HASH_CTX_STS_IDLE = 0x00, HASH_CTX_STS_PROCESSING = 0x01, HASH_CTX_STS_LAST = 0x02, HASH_CTX_STS_COMPLETE = 0x04 } HASH_CTX_STS;
typedef enum { HASH_CTX_ERROR_NONE = 0, HASH_CTX_ERROR_INVALID_FLAGS = -1, HASH_CTX_ERROR_ALREADY_PROCESSING = -2, HASH_CTX_ERROR_ALREADY_COMPLETED = -3 } HASH_CTX_ERROR;
#define hash_ctx_user_data(ctx) ((ctx)->user_data)
#define hash_ctx_digest(ctx) ((ctx)->job.result_digest)
#define hash_ctx_processing(ctx) ((ctx)->status & HASH_CTX_STS_PROCESSING)
#define hash_ctx_complete(ctx) ((ctx)->status == HASH_CTX_STS_COMPLETE)
#define hash_ctx_status(ctx) ((ctx)->status)
#define hash_ctx_error(ctx) ((ctx)->error)
#define hash_ctx_init(ctx) do { (ctx)->error = HASH_CTX_ERROR_NONE; (ctx)->status = HASH_CTX_STS_COMPLETE; } while (0)

namespace isal_shim {
template <typename W, int N> struct job_t { const uint8_t* buffer; uint64_t len; W result_digest[N]; int status; void* user_data; };
template <typename A> struct ctx_t {
    job_t<typename A::word, A::nwords> job;
    HASH_CTX_STS status; HASH_CTX_ERROR error; uint64_t total_length; const void* incoming_buffer; uint32_t incoming_buffer_length;
    typename A::state state; void* user_data;
};
template <typename A> struct mgr_t { ctx_t<A>* lane[64]; int used; uint64_t seed; };

template <typename A> void init(mgr_t<A>* m) { std::memset(m, 0, sizeof *m); m->seed = 88172645463325252ull + order; }
template <typename A> void work(ctx_t<A>* c)
{
    if (c->incoming_buffer_length) A::update(&c->state, c->incoming_buffer, c->incoming_buffer_length);
    c->incoming_buffer = nullptr; c->incoming_buffer_length = 0;
    if (c->status & HASH_CTX_STS_LAST) { A::final(&c->state, c->job.result_digest); c->status = HASH_CTX_STS_COMPLETE; }
    else c->status = HASH_CTX_STS_IDLE;
}
template <typename A> ctx_t<A>* take(mgr_t<A>* m)
{
    if (!m->used) return nullptr;
    int k = 0;
    if (order == 0) { for (int i = 1; i < m->used; ++i) if (m->lane[i]->incoming_buffer_length < m->lane[k]->incoming_buffer_length) k = i; }
    else if (order == 2) k = m->used - 1;
    else if (order > 2) { m->seed ^= m->seed << 13; m->seed ^= m->seed >> 7; m->seed ^= m->seed << 17; k = int(m->seed % m->used); }
    auto* c = m->lane[k];
    for (int i = k + 1; i < m->used; ++i) m->lane[i - 1] = m->lane[i];
    --m->used;
    work(c);
    return c;
}
template <typename A> ctx_t<A>* submit(mgr_t<A>* m, ctx_t<A>* c, const void* buffer, uint32_t len, HASH_CTX_FLAG flags)
{
    if (flags & ~HASH_ENTIRE) { c->error = HASH_CTX_ERROR_INVALID_FLAGS; return c; }
    if (c->status & HASH_CTX_STS_PROCESSING) { c->error = HASH_CTX_ERROR_ALREADY_PROCESSING; return c; }
    if ((c->status & HASH_CTX_STS_COMPLETE) && !(flags & HASH_FIRST)) { c->error = HASH_CTX_ERROR_ALREADY_COMPLETED; return c; }
    if (flags & HASH_FIRST) { A::start(&c->state); c->total_length = 0; }
    c->error = HASH_CTX_ERROR_NONE;
    c->incoming_buffer = buffer; c->incoming_buffer_length = len; c->total_length += len;
    c->status = (HASH_CTX_STS)((flags & HASH_LAST) ? (HASH_CTX_STS_PROCESSING | HASH_CTX_STS_LAST) : HASH_CTX_STS_PROCESSING);
    if (lanes == 0 || (len < A::block && !(flags & HASH_LAST))) { work(c); return c; }
    m->lane[m->used++] = c;
    return m->used >= (lanes < 64 ? lanes : 64) ? take(m) : nullptr;
}
template <typename W> W be(const uint8_t* p) { W w = 0; for (size_t i = 0; i < sizeof(W); ++i) w = W(w << 8) | p[i]; return w; }
}
