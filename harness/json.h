// Independent JSON tree, strict parser and writer used as part of the reference model (no RapidJSON involved).
#ifndef REF_JSON_H
#define REF_JSON_H
#include "mc.h"
#include <cmath>
#include <limits>

struct J {
    enum T { Null, False, True, Num, Str, Arr, Obj } t = Null;
    enum N { Int, Uint, Dbl } n = Int; // Int: negative integer >= INT64_MIN, Uint: non-negative integer <= UINT64_MAX
    std::int64_t i = 0;
    std::uint64_t u = 0;
    double d = 0;
    std::string s; // string value; for numbers optionally the literal to be written
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    static J null() { return J(); }
    static J boolean(bool b)
    {
        J j;
        j.t = b ? True : False;
        return j;
    }
    static J uint(std::uint64_t v)
    {
        J j;
        j.t = Num;
        j.n = Uint;
        j.u = v;
        return j;
    }
    static J sint(std::int64_t v)
    {
        if (v >= 0) {
            return uint(static_cast<std::uint64_t>(v));
        }
        J j;
        j.t = Num;
        j.n = Int;
        j.i = v;
        return j;
    }
    static J dbl(double v)
    {
        J j;
        j.t = Num;
        j.n = Dbl;
        j.d = v;
        return j;
    }
    static J str(std::string v)
    {
        J j;
        j.t = Str;
        j.s = std::move(v);
        return j;
    }
    static J arr(std::vector<J> v = {})
    {
        J j;
        j.t = Arr;
        j.a = std::move(v);
        return j;
    }
    static J obj(std::vector<std::pair<std::string, J>> v = {})
    {
        J j;
        j.t = Obj;
        j.o = std::move(v);
        return j;
    }
    static J lit(const std::string &number);

    bool isNum() const { return t == Num; }
    bool isBool() const { return t == False || t == True; }
    double asDouble() const { return n == Dbl ? d : n == Int ? static_cast<double>(i) : static_cast<double>(u); }
    const J *find(const std::string &name) const
    {
        for (const auto &m : o) {
            if (m.first == name) {
                return &m.second;
            }
        }
        return nullptr;
    }
};

inline bool sameBits(double a, double b)
{
    return std::memcmp(&a, &b, sizeof(a)) == 0;
}

inline bool jeq(const J &a, const J &b)
{
    if (a.t != b.t) {
        return false;
    }
    switch (a.t) {
    case J::Num:
        if (a.n != b.n) {
            return false;
        }
        return a.n == J::Int ? a.i == b.i : a.n == J::Uint ? a.u == b.u : sameBits(a.d, b.d);
    case J::Str:
        return a.s == b.s;
    case J::Arr:
        if (a.a.size() != b.a.size()) {
            return false;
        }
        for (std::size_t i = 0; i != a.a.size(); ++i) {
            if (!jeq(a.a[i], b.a[i])) {
                return false;
            }
        }
        return true;
    case J::Obj:
        if (a.o.size() != b.o.size()) {
            return false;
        }
        for (std::size_t i = 0; i != a.o.size(); ++i) {
            if (a.o[i].first != b.o[i].first || !jeq(a.o[i].second, b.o[i].second)) {
                return false;
            }
        }
        return true;
    default:
        return true;
    }
}

// strict RFC 8259 parser
struct JParser {
    const char *p, *e;
    bool ok = true;
    unsigned depth = 0;
    explicit JParser(const std::string &s)
        : p(s.data())
        , e(s.data() + s.size())
    {
    }
    void ws()
    {
        while (p != e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) {
            ++p;
        }
    }
    bool word(const char *w)
    {
        const auto n = std::strlen(w);
        if (static_cast<std::size_t>(e - p) < n || std::memcmp(p, w, n)) {
            return ok = false;
        }
        p += n;
        return true;
    }
    static void utf8(std::string &s, unsigned c)
    {
        if (c < 0x80) {
            s += static_cast<char>(c);
        } else if (c < 0x800) {
            s += static_cast<char>(0xC0 | (c >> 6));
            s += static_cast<char>(0x80 | (c & 0x3F));
        } else if (c < 0x10000) {
            s += static_cast<char>(0xE0 | (c >> 12));
            s += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
            s += static_cast<char>(0x80 | (c & 0x3F));
        } else {
            s += static_cast<char>(0xF0 | (c >> 18));
            s += static_cast<char>(0x80 | ((c >> 12) & 0x3F));
            s += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
            s += static_cast<char>(0x80 | (c & 0x3F));
        }
    }
    bool hex4(unsigned &v)
    {
        v = 0;
        for (int k = 0; k < 4; ++k, ++p) {
            if (p == e) {
                return ok = false;
            }
            const char c = *p;
            v = v * 16 + static_cast<unsigned>(c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1000000);
            if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) {
                return ok = false;
            }
        }
        return true;
    }
    bool string(std::string &s)
    {
        if (p == e || *p != '"') {
            return ok = false;
        }
        ++p;
        while (true) {
            if (p == e) {
                return ok = false;
            }
            const auto c = static_cast<unsigned char>(*p);
            if (c == '"') {
                ++p;
                return true;
            }
            if (c < 0x20) {
                return ok = false;
            }
            if (c != '\\') {
                s += static_cast<char>(c);
                ++p;
                continue;
            }
            if (++p == e) {
                return ok = false;
            }
            const char x = *p++;
            switch (x) {
            case '"':
            case '\\':
            case '/':
                s += x;
                break;
            case 'b':
                s += '\b';
                break;
            case 'f':
                s += '\f';
                break;
            case 'n':
                s += '\n';
                break;
            case 'r':
                s += '\r';
                break;
            case 't':
                s += '\t';
                break;
            case 'u': {
                unsigned v;
                if (!hex4(v)) {
                    return false;
                }
                if (v >= 0xDC00 && v <= 0xDFFF) {
                    return ok = false;
                }
                if (v >= 0xD800 && v <= 0xDBFF) {
                    unsigned w;
                    if (e - p < 2 || p[0] != '\\' || p[1] != 'u') {
                        return ok = false;
                    }
                    p += 2;
                    if (!hex4(w) || w < 0xDC00 || w > 0xDFFF) {
                        return ok = false;
                    }
                    v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                }
                utf8(s, v);
                break;
            }
            default:
                return ok = false;
            }
        }
    }
    bool number(J &j)
    {
        const char *b = p;
        const bool neg = p != e && *p == '-';
        if (neg) {
            ++p;
        }
        if (p == e || *p < '0' || *p > '9') {
            return ok = false;
        }
        if (*p == '0') {
            ++p;
        } else {
            while (p != e && *p >= '0' && *p <= '9') {
                ++p;
            }
        }
        bool integral = true;
        if (p != e && *p == '.') {
            integral = false;
            ++p;
            if (p == e || *p < '0' || *p > '9') {
                return ok = false;
            }
            while (p != e && *p >= '0' && *p <= '9') {
                ++p;
            }
        }
        if (p != e && (*p == 'e' || *p == 'E')) {
            integral = false;
            ++p;
            if (p != e && (*p == '+' || *p == '-')) {
                ++p;
            }
            if (p == e || *p < '0' || *p > '9') {
                return ok = false;
            }
            while (p != e && *p >= '0' && *p <= '9') {
                ++p;
            }
        }
        const std::string text(b, p);
        j.t = J::Num;
        if (integral) {
            errno = 0;
            if (neg) {
                const auto v = std::strtoll(text.c_str(), nullptr, 10);
                if (!errno) {
                    j = J::sint(v);
                    return true;
                }
            } else {
                const auto v = std::strtoull(text.c_str(), nullptr, 10);
                if (!errno) {
                    j = J::uint(v);
                    return true;
                }
            }
        }
        j = J::dbl(std::strtod(text.c_str(), nullptr));
        if (std::isinf(j.d)) {
            return ok = false; // number too big
        }
        return true;
    }
    bool value(J &j)
    {
        if (p == e || ++depth > 2000) {
            return ok = false;
        }
        switch (*p) {
        case 'n':
            j.t = J::Null;
            word("null");
            break;
        case 't':
            j.t = J::True;
            word("true");
            break;
        case 'f':
            j.t = J::False;
            word("false");
            break;
        case '"':
            j.t = J::Str;
            string(j.s);
            break;
        case '[':
            j.t = J::Arr;
            ++p;
            ws();
            if (p != e && *p == ']') {
                ++p;
                break;
            }
            while (ok) {
                j.a.emplace_back();
                ws();
                if (!value(j.a.back())) {
                    break;
                }
                ws();
                if (p == e) {
                    ok = false;
                    break;
                }
                const char c = *p++;
                if (c == ']') {
                    break;
                }
                if (c != ',') {
                    ok = false;
                }
            }
            break;
        case '{':
            j.t = J::Obj;
            ++p;
            ws();
            if (p != e && *p == '}') {
                ++p;
                break;
            }
            while (ok) {
                ws();
                j.o.emplace_back();
                if (!string(j.o.back().first)) {
                    break;
                }
                ws();
                if (p == e || *p != ':') {
                    ok = false;
                    break;
                }
                ++p;
                ws();
                if (!value(j.o.back().second)) {
                    break;
                }
                ws();
                if (p == e) {
                    ok = false;
                    break;
                }
                const char c = *p++;
                if (c == '}') {
                    break;
                }
                if (c != ',') {
                    ok = false;
                }
            }
            break;
        default:
            number(j);
        }
        --depth;
        return ok;
    }
};

inline bool jparse(const std::string &s, J &j)
{
    JParser ps(s);
    j = J();
    ps.ws();
    if (!ps.value(j)) {
        return false;
    }
    ps.ws();
    return ps.p == ps.e;
}

inline J J::lit(const std::string &number)
{
    J j;
    if (!jparse(number, j) || j.t != Num) {
        std::fprintf(stderr, "bad literal %s\n", number.c_str());
        std::abort();
    }
    j.s = number;
    return j;
}

inline void jwriteStr(std::string &out, const std::string &s)
{
    out += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            out += '\\';
            out += static_cast<char>(c);
        } else if (c < 0x20) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04X", c);
            out += b;
        } else {
            out += static_cast<char>(c);
        }
    }
    out += '"';
}

// style: 0 compact, 1 with plenty of whitespace
inline void jwrite(std::string &out, const J &j, int style = 0)
{
    const char *const sp = style ? " \n\t\r" : "";
    switch (j.t) {
    case J::Null:
        out += "null";
        break;
    case J::False:
        out += "false";
        break;
    case J::True:
        out += "true";
        break;
    case J::Num:
        if (!j.s.empty()) {
            out += j.s;
        } else if (j.n == J::Int) {
            out += std::to_string(j.i);
        } else if (j.n == J::Uint) {
            out += std::to_string(j.u);
        } else {
            char b[40];
            for (int prec = 1; prec <= 17; ++prec) {
                std::snprintf(b, sizeof(b), "%.*g", prec, j.d);
                if (sameBits(std::strtod(b, nullptr), j.d)) {
                    break;
                }
            }
            out += b;
            if (!std::strpbrk(b, ".en")) {
                out += ".0";
            }
        }
        break;
    case J::Str:
        jwriteStr(out, j.s);
        break;
    case J::Arr: {
        out += '[';
        out += sp;
        bool first = true;
        for (const auto &x : j.a) {
            if (!first) {
                out += ',';
                out += sp;
            }
            first = false;
            jwrite(out, x, style);
            out += sp;
        }
        out += ']';
        break;
    }
    case J::Obj: {
        out += '{';
        out += sp;
        bool first = true;
        for (const auto &x : j.o) {
            if (!first) {
                out += ',';
                out += sp;
            }
            first = false;
            jwriteStr(out, x.first);
            out += sp;
            out += ':';
            out += sp;
            jwrite(out, x.second, style);
            out += sp;
        }
        out += '}';
        break;
    }
    }
}

inline std::string jtext(const J &j, int style = 0)
{
    std::string s;
    jwrite(s, j, style);
    return s;
}

#endif
