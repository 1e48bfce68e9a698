// Reference digests: OpenSSL's one-shot interface, algorithms looked up by their published name.
#pragma once
#include <openssl/evp.h>
#include <map>
#include <string>
#include <string_view>
#include <vector>
#include <optional>
#include "dottorrent/hash_function.hpp"

namespace ref {
struct algo { dottorrent::hash_function f; const char* name; const char* openssl; std::size_t size; };
// name: the key used in torrent files and in the API; size: digest length in bytes
inline const std::vector<algo>& algorithms()
{
    using hf = dottorrent::hash_function;
    static const std::vector<algo> v = {
        {hf::md4, "md4", "MD4", 16}, {hf::md5, "md5", "MD5", 16},
        {hf::blake2b_512, "blake2b_512", "BLAKE2B-512", 64}, {hf::blake2s_256, "blake2s_256", "BLAKE2S-256", 32},
        {hf::sha1, "sha1", "SHA1", 20}, {hf::sha224, "sha224", "SHA2-224", 28}, {hf::sha256, "sha256", "SHA2-256", 32},
        {hf::sha384, "sha384", "SHA2-384", 48}, {hf::sha512, "sha512", "SHA2-512", 64},
        {hf::sha3_224, "sha3_224", "SHA3-224", 28}, {hf::sha3_256, "sha3_256", "SHA3-256", 32},
        {hf::sha3_384, "sha3_384", "SHA3-384", 48}, {hf::sha3_512, "sha3_512", "SHA3-512", 64},
        {hf::shake128, "shake128", "SHAKE-128", 16}, {hf::shake256, "shake256", "SHAKE-256", 32},
        {hf::ripemd160, "ripemd160", "RIPEMD-160", 20}, {hf::whirlpool, "whirlpool", "WHIRLPOOL", 64},
    };
    return v;
}
inline const EVP_MD* fetch(const algo& a)
{
    static std::map<std::string, const EVP_MD*> cache;
    auto [it, fresh] = cache.emplace(a.openssl, nullptr);
    if (fresh) it->second = EVP_MD_fetch(nullptr, a.openssl, nullptr);
    return it->second;
}
inline bool available(const algo& a) { return fetch(a) != nullptr; }
inline std::string digest(const algo& a, std::string_view data)
{
    unsigned char buf[EVP_MAX_MD_SIZE]; unsigned n = 0;
    if (EVP_Digest(data.data(), data.size(), buf, &n, fetch(a), nullptr) != 1) throw std::runtime_error("reference digest failed");
    return std::string(reinterpret_cast<char*>(buf), n);
}
inline const algo& find(std::string_view name)
{
    for (auto& a : algorithms()) if (a.name == name) return a;
    throw std::runtime_error("no such algorithm");
}
inline std::string sha1(std::string_view d) { static const algo& a = find("sha1"); return digest(a, d); }
inline std::string sha256(std::string_view d) { static const algo& a = find("sha256"); return digest(a, d); }
inline std::string hex(std::string_view d)
{
    std::string o;
    for (unsigned char c : d) { o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; }
    return o;
}
template <typename T> inline std::string str(const T& bytes) { return std::string(reinterpret_cast<const char*>(bytes.data()), bytes.size()); }
}
