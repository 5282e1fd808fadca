// Glue between the reference model and the binary part of the library under test.
#ifndef LIB_BIN_H
#define LIB_BIN_H
#include "ops.h"

#include <reflective_rapidjson/binary/reflector.h>
#include <reflective_rapidjson/binary/serializable.h>

#include <c++utilities/conversion/conversionexception.h>

#include <iostream>
#include <sstream>
#include <streambuf>

namespace RJ = ReflectiveRapidJSON;
namespace BR = ReflectiveRapidJSON::BinaryReflector;

#ifndef LIB_JSON_H
template <typename T> inline std::string show(const T &v)
{
    return jtext(Ops<T>::push(v));
}
#endif
inline std::string hex(const std::string &s, std::size_t max = 400)
{
    static const char *const d = "0123456789abcdef";
    std::string r;
    for (unsigned char ch : s.substr(0, max)) {
        r += d[ch >> 4];
        r += d[ch & 15];
    }
    return s.size() > max ? r + "... (" + std::to_string(s.size()) + " bytes)" : r;
}

#ifndef LIB_JSON_H
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
inline std::size_t allocatedBytes()
{
    return __sanitizer_get_current_allocated_bytes();
}
#endif

// a stream buffer providing the data in portions of the specified size; fails or ends at the specified position
enum class Fault { None, End, ThrowException, BadUnderflow };
struct SourceBuf : std::streambuf {
    const std::string &data;
    std::size_t pos = 0, failAt;
    std::vector<std::size_t> portions; // sizes of the portions, the last one is repeated
    std::size_t portion = 0;
    Fault fault;
    int calls = 0;
    std::vector<char> buffer; // only the current portion is accessible
    SourceBuf(const std::string &d, std::vector<std::size_t> p, std::size_t f = std::string::npos, Fault t = Fault::None)
        : data(d)
        , failAt(f)
        , portions(std::move(p))
        , fault(t)
    {
    }
    std::size_t consumed() const { return pos - static_cast<std::size_t>(egptr() - gptr()); }
    int_type underflow() override
    {
        ++calls;
        if (gptr() != egptr()) {
            return traits_type::to_int_type(*gptr());
        }
        auto n = portions.empty() ? data.size() : portions[std::min(portion++, portions.size() - 1)];
        n = std::min(n, std::min(failAt, data.size()) - pos);
        if (!n) {
            if (pos == failAt && fault == Fault::ThrowException) {
                throw std::runtime_error("mc: read fault");
            }
            return traits_type::eof();
        }
        buffer.assign(data.begin() + static_cast<std::ptrdiff_t>(pos), data.begin() + static_cast<std::ptrdiff_t>(pos + n));
        buffer.shrink_to_fit();
        pos += n;
        setg(buffer.data(), buffer.data(), buffer.data() + n);
        return traits_type::to_int_type(*gptr());
    }
};

// a stream buffer accepting data in portions of the specified size; fails at the specified position
struct SinkBuf : std::streambuf {
    std::string data;
    std::size_t portion, failAt;
    Fault fault;
    std::vector<char> buffer;
    SinkBuf(std::size_t p, std::size_t f = std::string::npos, Fault t = Fault::None)
        : portion(p)
        , failAt(f)
        , fault(t)
        , buffer(p)
    {
        setp(buffer.data(), buffer.data() + buffer.size());
    }
    bool flushBuffer()
    {
        const auto n = static_cast<std::size_t>(pptr() - pbase());
        const auto room = failAt == std::string::npos ? n : failAt - data.size();
        data.append(pbase(), std::min(n, room));
        setp(buffer.data(), buffer.data() + buffer.size());
        if (n > room) {
            if (fault == Fault::ThrowException) {
                throw std::runtime_error("mc: write fault");
            }
            return false;
        }
        return true;
    }
    int_type overflow(int_type ch) override
    {
        if (!flushBuffer()) {
            return traits_type::eof();
        }
        if (!traits_type::eq_int_type(ch, traits_type::eof())) {
            if (buffer.empty()) {
                if (data.size() == failAt) {
                    if (fault == Fault::ThrowException) {
                        throw std::runtime_error("mc: write fault");
                    }
                    return traits_type::eof();
                }
                data += traits_type::to_char_type(ch);
            } else {
                *pptr() = traits_type::to_char_type(ch);
                pbump(1);
            }
        }
        return traits_type::not_eof(ch);
    }
    int sync() override { return flushBuffer() ? 0 : -1; }
};

#endif
