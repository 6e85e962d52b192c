// Symbolic images built through the public API, and pixel equality.
#pragma once
#include "vk.h"
#include <bit>
#include <cstring>
#include "image_operations.h"
namespace vk
{
    template<class T> struct scalar { using type = T; static constexpr std::size_t n = 1; };
    template<> struct scalar<TinyDIP::RGB> { using type = std::uint8_t; static constexpr std::size_t n = 3; };
    template<> struct scalar<TinyDIP::RGB_DOUBLE> { using type = double; static constexpr std::size_t n = 3; };
    template<> struct scalar<TinyDIP::HSV> { using type = double; static constexpr std::size_t n = 3; };
    template<class U, std::size_t N> struct scalar<TinyDIP::MultiChannel<U, N>> { using type = U; static constexpr std::size_t n = N; };

    template<class T> void fill(std::vector<T>& v, const char* name)
    {
        vk_fill_(v.data(), v.size() * scalar<T>::n, kind_of<typename scalar<T>::type>(), name);
    }
    template<class T> TinyDIP::Image<T> image(const char* name, std::size_t w, std::size_t h)
    {
        std::vector<T> v(w * h);
        fill(v, name);
        return TinyDIP::Image<T>(v, w, h);
    }
    template<class T> T value(const char* name)
    {
        T t{};
        vk_fill_(&t, scalar<T>::n, kind_of<typename scalar<T>::type>(), name);
        return t;
    }
    //  exact equality of stored values (bit equality for floating point, so NaN equals itself)
#ifdef VK_REPLAY
    inline bool zeros(double a, double b) { return a == 0 && b == 0; }      //  natively the sign of a zero does not count
#else
    inline bool zeros(double, double) { return false; }
#endif
    inline bool same(float a, float b) { return std::bit_cast<std::uint32_t>(a) == std::bit_cast<std::uint32_t>(b) || zeros(a, b); }
    inline bool same(double a, double b) { return std::bit_cast<std::uint64_t>(a) == std::bit_cast<std::uint64_t>(b) || zeros(a, b); }
    template<std::integral T> bool same(T a, T b) { return a == b; }
    inline bool same(const TinyDIP::RGB& a, const TinyDIP::RGB& b) { return same(a.channels[0], b.channels[0]) && same(a.channels[1], b.channels[1]) && same(a.channels[2], b.channels[2]); }
    inline bool same(const TinyDIP::RGB_DOUBLE& a, const TinyDIP::RGB_DOUBLE& b) { return same(a.channels[0], b.channels[0]) && same(a.channels[1], b.channels[1]) && same(a.channels[2], b.channels[2]); }
    inline bool same(const TinyDIP::HSV& a, const TinyDIP::HSV& b) { return same(a.channels[0], b.channels[0]) && same(a.channels[1], b.channels[1]) && same(a.channels[2], b.channels[2]); }
    template<class U, std::size_t N> bool same(const TinyDIP::MultiChannel<U, N>& a, const TinyDIP::MultiChannel<U, N>& b) { for (std::size_t i = 0; i < N; ++i) if (!same(a.channels[i], b.channels[i])) return false; return true; }
}
using namespace TinyDIP;
//  raw view of pixel (x, y): independent of at()/operator(): the representation invariant fixed by the Image contracts
#define RAW(img, x, y) ((img).getImageData()[(y) * (img).getWidth() + (x)])
