#pragma once
#include "multi_buffer.h"
#define SHA512_DIGEST_NWORDS 8
ISAL_STAND_IN(SHA512, sha512, SHA512_CTX, uint64_t, 8, 128, SHA512_Init, SHA512_Update, SHA512_Final, __builtin_bswap64)
