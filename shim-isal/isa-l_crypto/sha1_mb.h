#pragma once
#include "multi_buffer.h"
#define SHA1_DIGEST_NWORDS 5
ISAL_STAND_IN(SHA1, sha1, SHA_CTX, uint32_t, 5, 64, SHA1_Init, SHA1_Update, SHA1_Final, __builtin_bswap32)
