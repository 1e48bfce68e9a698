// Stand-in for the multi-buffer hashing interface of ISA-L crypto (not installed here), computing with OpenSSL.
// It keeps what callers have to respect: jobs complete late and in any order, whole blocks of submitted data are read when the
// job is processed and not when it is submitted, a job in flight or complete refuses updates, digests are words in host order.
#pragma once
#include <cstdint>
#include <cstring>
#include <openssl/md5.h>
#include <openssl/sha.h>

typedef enum { HASH_UPDATE = 0x00, HASH_FIRST = 0x01, HASH_LAST = 0x02, HASH_ENTIRE = 0x03, HASH_DONE } HASH_CTX_FLAG;
typedef enum { HASH_CTX_STS_IDLE = 0x00, HASH_CTX_STS_PROCESSING = 0x01, HASH_CTX_STS_LAST = 0x02, HASH_CTX_STS_COMPLETE = 0x04 } HASH_CTX_STS;
typedef enum { HASH_CTX_ERROR_NONE = 0, HASH_CTX_ERROR_INVALID_FLAGS = -1, HASH_CTX_ERROR_ALREADY_PROCESSING = -2, HASH_CTX_ERROR_ALREADY_COMPLETED = -3 } HASH_CTX_ERROR;

#define hash_ctx_user_data(ctx) ((ctx)->user_data)
#define hash_ctx_digest(ctx) ((ctx)->job.result_digest)
#define hash_ctx_processing(ctx) ((ctx)->status & HASH_CTX_STS_PROCESSING)
#define hash_ctx_complete(ctx) ((ctx)->status == HASH_CTX_STS_COMPLETE)
#define hash_ctx_status(ctx) ((ctx)->status)
#define hash_ctx_error(ctx) ((ctx)->error)
#define hash_ctx_init(ctx) do { (ctx)->error = HASH_CTX_ERROR_NONE; (ctx)->status = HASH_CTX_STS_COMPLETE; } while (0)

namespace isal_stand_in {

template <typename State, typename Word, unsigned Words, unsigned Block>
struct ctx
{
    struct { Word result_digest[Words]; } job;
    HASH_CTX_STS status;
    HASH_CTX_ERROR error;
    void* user_data;
    // private
    State state;
    unsigned partial;                 // bytes of an incomplete block already taken over
    const unsigned char* incoming;    // read when the job is processed
    std::uint32_t incoming_len;
};

template <typename Ctx>
struct mgr { static constexpr unsigned max_lanes = 8; Ctx* lane[max_lanes]; unsigned lanes, used; std::uint32_t random; };

template <typename Ctx>
void init(mgr<Ctx>* m)
{
    static thread_local std::uint32_t n = 0;
    m->random = 0x9e3779b9u * ++n + 1;
    m->used = 0;
    m->lanes = 1 + m->random % mgr<Ctx>::max_lanes;
}

template <auto Update, auto Final, typename Ctx>
Ctx* finish_one(mgr<Ctx>* m)
{
    if (m->used == 0) return nullptr;
    m->random = m->random * 1664525u + 1013904223u;
    const unsigned i = (m->random >> 16) % m->used;
    Ctx* c = m->lane[i];
    m->lane[i] = m->lane[--m->used];
    Update(&c->state, c->incoming, c->incoming_len);
    if (c->status & HASH_CTX_STS_LAST) {
        Final(c);
        c->status = HASH_CTX_STS_COMPLETE;
    }
    else c->status = HASH_CTX_STS_IDLE;
    c->incoming = nullptr;
    c->incoming_len = 0;
    return c;
}

template <auto Start, auto Update, auto Final, unsigned Block, typename Ctx>
Ctx* submit(mgr<Ctx>* m, Ctx* c, const void* buffer, std::uint32_t len, HASH_CTX_FLAG flags)
{
    if (flags & ~HASH_ENTIRE) { c->error = HASH_CTX_ERROR_INVALID_FLAGS; return c; }
    if (c->status & HASH_CTX_STS_PROCESSING) { c->error = HASH_CTX_ERROR_ALREADY_PROCESSING; return c; }
    if ((c->status & HASH_CTX_STS_COMPLETE) && !(flags & HASH_FIRST)) { c->error = HASH_CTX_ERROR_ALREADY_COMPLETED; return c; }
    if (flags & HASH_FIRST) { Start(&c->state); c->partial = 0; }
    c->error = HASH_CTX_ERROR_NONE;
    c->status = static_cast<HASH_CTX_STS>((flags & HASH_LAST) ? HASH_CTX_STS_PROCESSING | HASH_CTX_STS_LAST : HASH_CTX_STS_PROCESSING);
    c->incoming = static_cast<const unsigned char*>(buffer);
    c->incoming_len = len;
    bool whole = true;
    if (c->partial != 0 || len < Block) {
        std::uint32_t copy = Block - c->partial;
        if (len < copy) copy = len;
        Update(&c->state, c->incoming, copy);
        c->incoming += copy;
        c->incoming_len -= copy;
        whole = c->partial + copy == Block || c->incoming_len != 0;
    }
    c->partial = (c->partial + len) % Block;
    // nothing to process yet
    if (!whole && !(flags & HASH_LAST)) { c->status = HASH_CTX_STS_IDLE; return c; }
    m->lane[m->used++] = c;
    return m->used >= m->lanes ? finish_one<Update, Final>(m) : nullptr;
}

} // namespace isal_stand_in

#define ISAL_STAND_IN(NAME, lower, STATE, WORD, WORDS, BLOCK, STARTFN, UPDATEFN, FINALFN, SWAP)                                     \
    typedef isal_stand_in::ctx<STATE, WORD, WORDS, BLOCK> NAME##_HASH_CTX;                                                          \
    typedef isal_stand_in::mgr<NAME##_HASH_CTX> NAME##_HASH_CTX_MGR;                                                                \
    inline void lower##_stand_in_final(NAME##_HASH_CTX* c)                                                                          \
    {                                                                                                                               \
        unsigned char d[sizeof(c->job.result_digest)];                                                                              \
        FINALFN(d, &c->state);                                                                                                      \
        std::memcpy(c->job.result_digest, d, sizeof d);                                                                             \
        for (auto& w : c->job.result_digest) w = SWAP(w);                                                                           \
    }                                                                                                                               \
    inline void lower##_ctx_mgr_init(NAME##_HASH_CTX_MGR* m) { isal_stand_in::init(m); }                                            \
    inline NAME##_HASH_CTX* lower##_ctx_mgr_submit(NAME##_HASH_CTX_MGR* m, NAME##_HASH_CTX* c, const void* b, uint32_t n, HASH_CTX_FLAG f) \
    { return isal_stand_in::submit<STARTFN, UPDATEFN, &lower##_stand_in_final, BLOCK>(m, c, b, n, f); }                            \
    inline NAME##_HASH_CTX* lower##_ctx_mgr_flush(NAME##_HASH_CTX_MGR* m) { return isal_stand_in::finish_one<UPDATEFN, &lower##_stand_in_final>(m); }
