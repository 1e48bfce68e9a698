#pragma once
#include "multi_buffer.h"
#define MD5_DIGEST_NWORDS 4
ISAL_STAND_IN(MD5, md5, MD5_CTX, uint32_t, 4, 64, MD5_Init, MD5_Update, MD5_Final, )
