// Classes with date, time and duration members (also fed to the code generator).
#ifndef TYPES_CHRONO_H
#define TYPES_CHRONO_H
#include <reflective_rapidjson/binary/serializable.h>
#include <reflective_rapidjson/json/serializable.h>

#include <c++utilities/chrono/datetime.h>
#include <c++utilities/chrono/timespan.h>

#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

namespace T {
struct Times : public ReflectiveRapidJSON::JsonSerializable<Times>, public ReflectiveRapidJSON::BinarySerializable<Times> {
    int pre = 3;
    CppUtilities::DateTime date = CppUtilities::DateTime(630822816000000001ull);
    CppUtilities::TimeSpan span = CppUtilities::TimeSpan(77);
    std::vector<CppUtilities::DateTime> dates;
    std::map<std::string, CppUtilities::TimeSpan> spans;
    std::optional<CppUtilities::DateTime> maybe;
    std::unique_ptr<CppUtilities::TimeSpan> ptr;
    std::variant<int, CppUtilities::DateTime, CppUtilities::TimeSpan> var;
    std::pair<CppUtilities::DateTime, CppUtilities::TimeSpan> pair;
    std::string post = "p";
};
}
#endif
