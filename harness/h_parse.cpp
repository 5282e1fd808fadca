// C07: all texts up to a length over an alphabet of bytes or tokens, every length bound of given texts and any nesting depth.
#include "meta.h"
#include "lib_json.h"

using Sub = U::Sub;

enum Verdict { Malformed, WellFormed, Unspecified };

// number beyond the range of double and escaped surrogates without counterpart are left unspecified
static bool unspecifiedContent(const std::string &text)
{
    for (std::size_t i = 0; i + 1 < text.size(); ++i) {
        if (text[i] == '\\' && (text[i + 1] == 'u')) {
            if (i + 3 < text.size() && (text[i + 2] == 'd' || text[i + 2] == 'D') && std::strchr("89abcdefABCDEF", text[i + 3])) {
                return true;
            }
        }
    }
    bool digits = false;
    for (std::size_t i = 0; i < text.size(); ++i) {
        digits = digits || (text[i] >= '0' && text[i] <= '9');
        if (digits && (text[i] == 'e' || text[i] == 'E')) {
            // exponent of three or more digits
            auto k = i + 1;
            k += k < text.size() && (text[k] == '+' || text[k] == '-');
            if (k + 2 < text.size() && std::isdigit(text[k]) && std::isdigit(text[k + 1]) && std::isdigit(text[k + 2])) {
                return true;
            }
        }
    }
    return false;
}

static Verdict classify(const std::string &text, J &doc)
{
    if (unspecifiedContent(text)) {
        return Unspecified;
    }
    return jparse(text.compare(0, 3, "\xEF\xBB\xBF") ? text : text.substr(3), doc) ? WellFormed : Malformed;
}

// fractions might be off by one unit in the last place (see known findings of C01)
static bool near(double a, double b)
{
    return a == b || std::fabs(a - b) <= 4e-16 * std::max(std::fabs(a), std::fabs(b));
}
static bool similar(const J &a, const J &b)
{
    if (a.t == J::Num && b.t == J::Num) {
        return jeq(a, b) || (a.n == J::Dbl && b.n == J::Dbl && near(a.d, b.d));
    }
    if (a.t != b.t || a.a.size() != b.a.size() || a.o.size() != b.o.size() || a.s != b.s) {
        return false;
    }
    for (std::size_t i = 0; i != a.a.size(); ++i) {
        if (!similar(a.a[i], b.a[i])) {
            return false;
        }
    }
    for (std::size_t i = 0; i != a.o.size(); ++i) {
        if (a.o[i].first != b.o[i].first || !similar(a.o[i].second, b.o[i].second)) {
            return false;
        }
    }
    return true;
}

template <typename T, typename F> void target(mc::Ctx &c, const char *what, Verdict v, const J &doc, F &&f)
{
    bool threw = false;
    T res = T();
    RJErrors errors;
    try {
        res = f(&errors);
    } catch (const rapidjson::ParseResult &r) {
        threw = true;
        c.check(r.IsError(), "no-error", std::string(what) + " throws ParseResult without error");
    } catch (const std::exception &e) {
        c.fail("other-exception", std::string(what) + " throws " + e.what());
    }
    if (v == Unspecified) {
        return;
    }
    c.check(threw == (v == Malformed), threw ? "rejected" : "accepted", std::string(what) + (threw ? " throws ParseResult for well-formed text" : " does not throw for malformed text"));
    if (!threw) {
        T expected = T();
        Errs e;
        e.generated = false;
        if (Ops<T>::jt() != JTNumber && Ops<T>::jt() != JTBool && jtOf(doc) != Ops<T>::jt()) {
            e.add(EKTypeMismatch, Ops<T>::jt(), jtOf(doc));
        } else {
            Ops<T>::pull(expected, doc, e);
        }
        c.check(similar(Ops<T>::push(res), Ops<T>::push(expected)), "value", std::string(what) + " yields " + show(res));
        c.check(errList(errors) == errList(e.list), "errors", std::string(what) + " yields " + errList(errors) + " instead of " + errList(e.list));
    }
}

// text is placed at the end of an exactly sized buffer (terminated: followed by a valid continuation)
static void explore(mc::Ctx &c, const std::string &text, const std::string &continuation)
{
    c.describe(text + (continuation.empty() ? "" : " | " + continuation));
    J doc;
    const auto v = classify(text, doc);
    std::unique_ptr<char[]> buffer(new char[text.size() + continuation.size()]);
    std::memcpy(buffer.get(), text.data(), text.size());
    std::memcpy(buffer.get() + text.size(), continuation.data(), continuation.size());
    const char *const b = buffer.get();
    const auto n = text.size();
    {
        bool threw = false;
        try {
            const auto d = JR::parseJsonDocFromString(b, n);
            c.check(v == Unspecified || v == Malformed || similar(toJ(d), doc), "document", "parsed as " + jtext(toJ(d)));
        } catch (const rapidjson::ParseResult &) {
            threw = true;
        }
        c.check(v == Unspecified || threw == (v == Malformed), threw ? "rejected" : "accepted", std::string("parseJsonDocFromString ") + (threw ? "throws for well-formed text" : "does not throw for malformed text"));
    }
    target<Sub>(c, "fromJson<class>", v, doc, [&](RJErrors *e) { return Sub::fromJson(b, n, e); });
    target<std::vector<int>>(c, "fromJson<vector>", v, doc, [&](RJErrors *e) { return JR::fromJson<std::vector<int>>(b, n, e); });
    target<std::map<std::string, int>>(c, "fromJson<map>", v, doc, [&](RJErrors *e) { return JR::fromJson<std::map<std::string, int>>(b, n, e); });
    target<std::string>(c, "fromJson<string>", v, doc, [&](RJErrors *e) { return JR::fromJson<std::string>(b, n, e); });
    target<double>(c, "fromJson<double>", v, doc, [&](RJErrors *e) { return JR::fromJson<double>(b, n, e); });
    target<bool>(c, "fromJson<bool>", v, doc, [&](RJErrors *e) { return JR::fromJson<bool>(b, n, e); });
    if (continuation.empty()) {
        // overloads for std::string and C-strings
        target<Sub>(c, "fromJson<class>(string)", v, doc, [&](RJErrors *e) { return Sub::fromJson(text, e); });
        if (text.find('\0') == std::string::npos) {
            target<Sub>(c, "fromJson<class>(const char *)", v, doc, [&](RJErrors *e) { return Sub::fromJson(text.c_str(), e); });
            target<std::vector<int>>(c, "fromJson<vector>(const char *)", v, doc, [&](RJErrors *e) { return JR::fromJson<std::vector<int>>(text.c_str(), e); });
        }
    }
}

static void fromAlphabet(mc::Ctx &c, const std::vector<std::string> &alphabet, int maxLength)
{
    std::string text;
    std::uint64_t state = 14695981039346656037ull;
    for (int i = 0; i != maxLength; ++i) {
        const auto n = c.free(static_cast<std::uint32_t>(alphabet.size() + 1));
        if (!n) {
            break;
        }
        text += alphabet[n - 1];
    }
    c.state(text);
    explore(c, text, std::string());
}

static const std::vector<std::string> &samples()
{
    static const std::vector<std::string> s = { "{\"a\":1,\"s\":\"x\"}", "[1,2,3]", "{\"k\":12,\"l\":-3}", "\"string\\n\\u00e9\\ud83d\\ude00\"", "-12.50e+2", "true", "false",
        "null", " [ ] ", "\t{ \"a\" : [ { } , \"\\\\\" , null ] }\r\n", "{\"a\":{\"b\":[[],[{}]]}}", "\xEF\xBB\xBF{\"a\":2}", "12345678901234567890",
        "0.1234567890123456789012345678901234567890", "[true,false,null,0]" };
    return s;
}

int main(int argc, char **argv)
{
    std::vector<mc::Unit> units;
    static const std::vector<std::string> bytes = { "{", "}", "[", "]", ":", ",", "\"", "\\", "1", "0", "-", "+", ".", "e", "E", " ", "\n", "u", "n", "/", "x", std::string(1, '\0'), "\x1f",
        "\xEF", "\xBB", "\xBF" };
    units.push_back({ "bytes up to " + std::to_string(BYTES), 0, [](mc::Ctx &c) { fromAlphabet(c, bytes, BYTES); }, SHARDS });
    static const std::vector<std::string> tokens = { "{", "}", "[", "]", ":", ",", "\"a\"", "\"s\"", "1", "-0.5e1", "true", "null", " ", std::string(1, '\0') };
    units.push_back({ "tokens up to " + std::to_string(TOKENS), 0, [](mc::Ctx &c) { fromAlphabet(c, tokens, TOKENS); }, SHARDS });
    static const std::vector<std::string> literal = { "t", "r", "u", "e", "f", "a", "l", "s", "n", "T", "x", "[" };
    units.push_back({ "literals up to 4", 0, [](mc::Ctx &c) { fromAlphabet(c, literal, 4); }, 1 });
    // within a string
    static const std::vector<std::string> escapes = { "\\u", "0", "a", "F", "g", "\\", "\"", "D83D", "DE00", "\x1f", "\x7f", "\xc3\xa9", "n" };
    units.push_back({ "strings up to " + std::to_string(TOKENS), 0, [](mc::Ctx &c) {
        std::string text;
        for (int i = 0; i != TOKENS; ++i) {
            const auto n = c.free(static_cast<std::uint32_t>(escapes.size() + 1));
            if (!n) {
                break;
            }
            text += escapes[n - 1];
        }
        text = '"' + text + '"';
        c.state(text);
        explore(c, text, std::string());
    }, SHARDS });
    units.push_back({ "every prefix with and without continuation", 0, [](mc::Ctx &c) {
        const auto &s = c.pickFree(samples());
        const auto n = c.free(static_cast<std::uint32_t>(s.size() + 1));
        const auto withRest = c.free(3);
        const auto text = s.substr(0, n);
        c.state(text + std::to_string(withRest));
        explore(c, text, withRest == 0 ? std::string() : withRest == 1 ? s.substr(n) + "]" : "\",1}]");
    }, 1 });
    units.push_back({ "every byte replaced/inserted", 0, [](mc::Ctx &c) {
        auto text = c.pickFree(samples());
        const auto n = c.free(static_cast<std::uint32_t>(text.size()));
        const auto &b = c.pickFree(bytes);
        if (c.free(2)) {
            text.replace(n, 1, b);
        } else {
            text.insert(n, b);
        }
        c.state(text);
        explore(c, text, std::string());
    }, 2 });
    units.push_back({ "nesting depth", 0, [](mc::Ctx &c) {
        static const std::vector<std::size_t> depths = { 1, 10, 1000, 30000, 300000, DEPTH };
        static const std::vector<std::pair<std::string, std::string>> kinds = { { "[", "]" }, { "{\"a\":", "}" }, { "[{\"m\":", "}]" } };
        const auto depth = c.pickFree(depths);
        const auto &kind = c.pickFree(kinds);
        const auto form = c.free(4); // well-formed, one closing missing, all closing missing, wrong end
        std::string text;
        for (std::size_t i = 0; i != depth; ++i) {
            text += kind.first;
        }
        text += "1";
        for (std::size_t i = form == 1 ? 1 : 0; i < depth && form != 2; ++i) {
            text += kind.second;
        }
        if (form == 3) {
            text += '}';
        }
        c.describe("depth " + std::to_string(depth) + " of " + kind.first + ", form " + std::to_string(form));
        c.state(c.desc);
        for (int t = 0; t != 4; ++t) {
            bool threw = false;
            try {
                RJErrors errors;
                switch (t) {
                case 0:
                    JR::parseJsonDocFromString(text.data(), text.size());
                    break;
                case 1:
                    Sub::fromJson(text.data(), text.size(), &errors);
                    break;
                case 2:
                    JR::fromJson<std::vector<int>>(text.data(), text.size(), &errors);
                    break;
                case 3:
                    JR::fromJson<std::map<std::string, std::vector<int>>>(text.data(), text.size(), &errors);
                    break;
                }
            } catch (const rapidjson::ParseResult &) {
                threw = true;
            }
            c.check(threw == (form != 0), "depth", threw ? "rejected" : "accepted");
        }
    }, 1 });
    return mc::run(argc, argv, units);
}
