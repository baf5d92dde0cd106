#pragma once
#include <cstdint>
// little-endian machines only, as everything here
static inline uint16_t byteswap16(uint16_t x) { return __builtin_bswap16(x); }
static inline uint32_t byteswap32(uint32_t x) { return __builtin_bswap32(x); }
static inline uint64_t byteswap64(uint64_t x) { return __builtin_bswap64(x); }
static inline uint16_t to_be16(uint16_t x) { return __builtin_bswap16(x); }
static inline uint32_t to_be32(uint32_t x) { return __builtin_bswap32(x); }
static inline uint64_t to_be64(uint64_t x) { return __builtin_bswap64(x); }
static inline uint16_t to_le16(uint16_t x) { return x; }
static inline uint32_t to_le32(uint32_t x) { return x; }
static inline uint64_t to_le64(uint64_t x) { return x; }
