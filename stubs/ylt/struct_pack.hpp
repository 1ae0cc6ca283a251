// Stand-in for ylt/struct_pack (not installed here): the same interface as far as
// bitcask uses it, so that bitcask can be type-checked (and, in demonstrations, run).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <expected>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <vector>

namespace struct_pack
{
struct err_code
{
    int ec = 0;
    std::string_view message() const { return "struct_pack error"; }
    explicit operator bool() const { return ec != 0; }
};
struct serialize_buffer_size
{
    std::size_t n = 0;
    std::size_t size() const { return n; }
    operator std::size_t() const { return n; }
};
template <class T, class E>
using expected = std::expected<T, E>;

namespace stub
{
template <class C>
void put_raw(C& out, const void* p, std::size_t n)
{
    const char* c = static_cast<const char*>(p);
    out.insert(out.end(), c, c + n);
}
template <class C, class T>
void put(C& out, const T& v)
{
    if constexpr (std::is_arithmetic_v<T>)
        put_raw(out, &v, sizeof(v));
    else
    {
        std::uint64_t n = v.size();
        put_raw(out, &n, sizeof(n));
        put_raw(out, v.data(), v.size());
    }
}
template <class T>
bool get(const char*& p, std::size_t& left, T& v)
{
    if constexpr (std::is_arithmetic_v<T>)
    {
        if (left < sizeof(v)) return false;
        std::memcpy(&v, p, sizeof(v));
        p += sizeof(v);
        left -= sizeof(v);
        return true;
    }
    else
    {
        std::uint64_t n = 0;
        if (!get(p, left, n) || left < n) return false;
        v.assign(p, p + n);
        p += n;
        left -= n;
        return true;
    }
}
}  // namespace stub

template <class T>
std::vector<char> serialize(const T& v)
{
    std::vector<char> out;
    std::uint32_t head = 0x53504b31;
    stub::put_raw(out, &head, sizeof(head));
    std::apply([&](auto... m) { (stub::put(out, v.*m), ...); }, ylt_refl_members(static_cast<const T*>(nullptr)));
    return out;
}
template <class C, class T>
void serialize_to(C& out, const T& v)
{
    auto b = serialize(v);
    stub::put_raw(out, b.data(), b.size());
}
template <class T>
serialize_buffer_size get_needed_size(const T& v)
{
    return {serialize(v).size()};
}
template <class T, class V>
expected<T, err_code> deserialize(const V& view)
{
    const char* p = view.data();
    std::size_t left = view.size();
    std::uint32_t head = 0;
    if (!stub::get(p, left, head) || head != 0x53504b31) return std::unexpected(err_code{1});
    T v;
    bool ok = true;
    std::apply([&](auto... m) { ((ok = ok && stub::get(p, left, v.*m)), ...); },
               ylt_refl_members(static_cast<const T*>(nullptr)));
    if (!ok) return std::unexpected(err_code{2});
    return v;
}
}  // namespace struct_pack

#define YLT_REFL_1(T, a) &T::a
#define YLT_REFL_2(T, a, b) &T::a, &T::b
#define YLT_REFL_3(T, a, b, c) &T::a, &T::b, &T::c
#define YLT_REFL_4(T, a, b, c, d) &T::a, &T::b, &T::c, &T::d
#define YLT_REFL_5(T, a, b, c, d, e) &T::a, &T::b, &T::c, &T::d, &T::e
#define YLT_REFL_6(T, a, b, c, d, e, f) &T::a, &T::b, &T::c, &T::d, &T::e, &T::f
#define YLT_REFL_PICK(_1, _2, _3, _4, _5, _6, N, ...) N
#define YLT_REFL(T, ...)                                                                                      \
    inline constexpr auto ylt_refl_members(const T*)                                                          \
    {                                                                                                         \
        return std::make_tuple(YLT_REFL_PICK(__VA_ARGS__, YLT_REFL_6, YLT_REFL_5, YLT_REFL_4, YLT_REFL_3,     \
                                             YLT_REFL_2, YLT_REFL_1)(T, __VA_ARGS__));                        \
    }

