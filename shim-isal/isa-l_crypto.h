#pragma once
#define ISAL_CRYPTO_MAJOR_VERSION 2
#define ISAL_CRYPTO_MINOR_VERSION 24
#define ISAL_CRYPTO_PATCH_VERSION 0
#include "isa-l_crypto/md5_mb.h"
#include "isa-l_crypto/sha1_mb.h"
#include "isa-l_crypto/sha256_mb.h"
#include "isa-l_crypto/sha512_mb.h"
