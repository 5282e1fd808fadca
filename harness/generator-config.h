// Created via CMake from template config.h.in
// WARNING! Any changes to this file will be overwritten by the next CMake run!

#ifndef REFLECTIVE_RAPIDJSON_GENERATOR_CONFIG
#define REFLECTIVE_RAPIDJSON_GENERATOR_CONFIG

#define PROJECT_NAME "reflective_rapidjson_generator"
#define PROJECT_VARNAME "reflective_rapidjson_generator"
#define PROJECT_VARNAME_UPPER "REFLECTIVE_RAPIDJSON_GENERATOR"
#define PROJECT_LICENSE "GPL-2.0+"
#define PROJECT_CONFIG_NAME ""
#define PROJECT_NAMESPACE ""
#define PROJECT_CONFIG_SUFFIX ""
#define PROJECT_CONFIG_TARGET_SUFFIX ""
#define APP_NAME "Reflection for RapidJSON"
#define APP_VERSION "0.0.17"
#define APP_VERSION_MAJOR 0
#define APP_VERSION_MINOR 0
#define APP_VERSION_PATCH 17
#define APP_AUTHOR "Martchus"
#define APP_CREDITS ""
#define APP_URL "https://github.com/Martchus/reflective-rapidjson"
#define APP_DOMAIN ""
#define APP_DESCRIPTION "Reflection for serializing/deserializing with RapidJSON"
#define APP_INSTALL_PREFIX "/usr/local"
#define APP_DATA_DIR "share/reflective_rapidjson_generator"
#define DEPENCENCY_VERSIONS { \
    "C++ Utilities: 5.24.5"}
#define CPP_UTILITIES_INCLUDE_DIRS "/usr/include/martchus-c++utilities"
#define RAPIDJSON_INCLUDE_DIRS "/usr/include"
#define REFLECTION_GENERATOR_CLANG_RESOURCE_DIR "/usr/lib/llvm-18/lib/clang/18"

#endif // REFLECTIVE_RAPIDJSON_GENERATOR_CONFIG
