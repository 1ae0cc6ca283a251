// Stand-in for google/crc32c (not installed here).
#pragma once
#include <cstddef>
#include <cstdint>
namespace crc32c
{
inline std::uint32_t Extend(std::uint32_t crc, const std::uint8_t* d, std::size_t n)
{
    crc = ~crc;
    for (std::size_t i = 0; i < n; ++i)
    {
        crc ^= d[i];
        for (int k = 0; k < 8; ++k) crc = (crc >> 1) ^ (0x82F63B78u & (0u - (crc & 1u)));
    }
    return ~crc;
}
inline std::uint32_t Crc32c(const std::uint8_t* d, std::size_t n) { return Extend(0, d, n); }
inline std::uint32_t Crc32c(const char* d, std::size_t n) { return Extend(0, reinterpret_cast<const std::uint8_t*>(d), n); }
}  // namespace crc32c
