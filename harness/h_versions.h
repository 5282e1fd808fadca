// C13: compares reading/writing versioned types with the expected data and effect.
#include <cstdint>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
namespace RJ = ReflectiveRapidJSON;

struct WriteCase {
    RJ::BinaryVersion requested;
    std::vector<int> expected, known; // >= 0: byte, < 0: value of a member
    const char *knownSig;
};
struct ReadCase {
    RJ::BinaryVersion param;
    std::vector<int> data;
    const char *values; // w: as within the data, p: as before, d: default
    RJ::BinaryVersion result;
    const char *knownSig;
};
struct Failure {
    int shape;
    std::string sig, msg;
};
static std::vector<Failure> failures;
static std::size_t classes = 0, checks = 0;
static int currentShape;

static bool expect(bool ok, const std::string &sig, const std::function<std::string()> &msg)
{
    ++checks;
    if (!ok) {
        failures.push_back({ currentShape, sig, msg() });
    }
    return ok;
}
static std::string escaped(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
        }
        r += c < 0x20 ? ' ' : static_cast<char>(c);
    }
    return r;
}
static int finish()
{
    std::cout << "\n{\"classes\": " << classes << ", \"checks\": " << checks << ", \"failures\": [";
    for (std::size_t i = 0; i != failures.size(); ++i) {
        const auto &f = failures[i];
        std::cout << (i ? ", " : "") << "{\"shape\": " << f.shape << ", \"sig\": \"" << escaped(f.sig) << "\", \"msg\": \"" << escaped(f.msg) << "\"}";
    }
    std::cout << "]}\n";
    return 0;
}
static std::string data(const std::vector<int> &tokens, std::uint32_t first)
{
    std::string r;
    for (const auto t : tokens) {
        if (t >= 0) {
            r += static_cast<char>(t);
        } else {
            const std::uint32_t v = first + static_cast<std::uint32_t>(-1 - t);
            for (int k = 24; k >= 0; k -= 8) {
                r += static_cast<char>(v >> k & 0xFF);
            }
        }
    }
    return r;
}
static std::string hex(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        r += "0123456789abcdef"[c >> 4];
        r += "0123456789abcdef"[c & 15];
    }
    return r;
}
static std::string varlen(std::uint64_t v)
{
    std::ostringstream s;
    CppUtilities::BinaryWriter(&s).writeVariableLengthUIntBE(v);
    return s.str();
}

template <typename K, RJ::BinaryVersion version>
void run(int shape, const char *name, std::uint32_t *(*leaf)(void *, int), int leaves, const std::vector<WriteCase> &writes, const std::vector<ReadCase> &reads,
    RJ::BinaryVersion supported)
{
    currentShape = shape;
    ++classes;
    std::cout << "running " << shape << ' ' << name << std::endl;
    K defaults;
    const auto fill = [&](K &k, std::uint32_t first) {
        for (int i = 0; i != leaves; ++i) {
            *leaf(&k, i) = first + static_cast<std::uint32_t>(i);
        }
    };
    for (const auto &c : writes) {
        K k;
        fill(k, 0xA0000000);
        for (int way = 0; way != 2; ++way) {
            std::ostringstream s;
            s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            if (way) {
                RJ::BinaryReflector::BinarySerializer(&s).write(k, c.requested);
            } else {
                static_cast<const RJ::BinarySerializable<K, version> &>(k).toBinary(s, c.requested);
            }
            const auto want = data(c.expected, 0xA0000000);
            expect(s.str() == want, s.str() == data(c.known, 0xA0000000) && *c.knownSig ? std::string("known-write-") + c.knownSig : "write", [&] {
                return "written with version " + std::to_string(c.requested) + ": " + hex(s.str()) + " but expected is " + hex(want);
            });
        }
    }
    for (const auto &c : reads) {
        for (int way = 0; way != 2; ++way) {
            if (way && (!version || c.param)) {
                continue;
            }
            std::stringstream s(data(c.data, 0xB0000000) + "\xAA\xBB");
            s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            K k;
            fill(k, 0xC0000000);
            std::string problem;
            RJ::BinaryVersion result = 0;
            try {
                result = way ? static_cast<RJ::BinarySerializable<K, version> &>(k).restoreFromBinary(s) : RJ::BinaryReflector::BinaryDeserializer(&s).read(k, c.param);
            } catch (const RJ::BinaryVersionNotSupported &e) {
                problem = "version " + std::to_string(e.presentVersion) + " is supposed to be not supported by " + (e.record ? e.record : "?");
            } catch (const std::exception &e) {
                problem = e.what();
            }
            if (problem.empty()) {
                if (s.tellg() != static_cast<std::streamoff>(data(c.data, 0).size())) {
                    problem = std::to_string(s.tellg()) + " bytes consumed";
                } else if (result != c.result) {
                    problem = "version " + std::to_string(result) + " returned, expected: " + std::to_string(c.result);
                } else {
                    for (int i = 0; i != leaves; ++i) {
                        const auto n = static_cast<std::uint32_t>(i);
                        const auto want = c.values[i] == 'w' ? 0xB0000000 + n : c.values[i] == 'p' ? 0xC0000000 + n : *leaf(&defaults, i);
                        const auto is = *leaf(&k, i);
                        if (is != want) {
                            problem += "value " + std::to_string(i) + " is " + std::to_string(is) + ", expected: " + std::to_string(want) + "; ";
                        }
                    }
                }
            }
            expect(problem.empty(), *c.knownSig ? std::string("known-read-") + c.knownSig : "read", [&] {
                return "reading " + hex(data(c.data, 0xB0000000)) + " with version " + std::to_string(c.param) + ": " + problem;
            });
        }
    }
    if (supported) {
        for (const auto v : { supported + 1, supported + 2, supported * 2, supported + 1000, static_cast<RJ::BinaryVersion>((1ull << 56) - 1), static_cast<RJ::BinaryVersion>(1ull << 55) }) {
            if (v <= supported || v >= 1ull << 56) {
                continue;
            }
            for (int way = 0; way != 2; ++way) {
                std::stringstream s(varlen(v) + std::string(64, '\x01'));
                s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
                K k;
                fill(k, 0xC0000000);
                std::string problem = "no exception thrown";
                try {
                    way ? static_cast<RJ::BinarySerializable<K, version> &>(k).restoreFromBinary(s) : RJ::BinaryReflector::BinaryDeserializer(&s).read(k);
                } catch (const RJ::BinaryVersionNotSupported &e) {
                    problem = e.presentVersion == v && e.maxVersion == supported && e.record && std::string(e.record) == name
                        ? std::string()
                        : "exception for version " + std::to_string(e.presentVersion) + "/" + std::to_string(e.maxVersion) + " and " + (e.record ? e.record : "?") + " thrown";
                } catch (const std::exception &e) {
                    problem = e.what();
                }
                for (int i = 0; i != leaves && problem.empty(); ++i) {
                    if (*leaf(&k, i) != 0xC0000000 + static_cast<std::uint32_t>(i)) {
                        problem = "value " + std::to_string(i) + " changed";
                    }
                }
                expect(problem.empty(), "unsupported", [&] { return "reading version " + std::to_string(v) + ": " + problem; });
            }
        }
    }
}
