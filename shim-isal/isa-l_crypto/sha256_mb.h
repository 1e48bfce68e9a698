#pragma once
#include "multi_buffer.h"
#define SHA256_DIGEST_NWORDS 8
ISAL_STAND_IN(SHA256, sha256, SHA256_CTX, uint32_t, 8, 64, SHA256_Init, SHA256_Update, SHA256_Final, __builtin_bswap32)
