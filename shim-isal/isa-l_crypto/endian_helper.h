#pragma once
#define to_be16(x) __builtin_bswap16(x)
#define to_be32(x) __builtin_bswap32(x)
#define to_be64(x) __builtin_bswap64(x)
#define to_le16(x) (x)
#define to_le32(x) (x)
#define to_le64(x) (x)
