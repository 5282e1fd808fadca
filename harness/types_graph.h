// Classes forming graphs of shared pointers (C11); input of the code generator.
#ifndef TYPES_GRAPH_H
#define TYPES_GRAPH_H
#include <reflective_rapidjson/binary/serializable.h>

#include <map>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include <vector>

namespace G {

struct Leaf : public ReflectiveRapidJSON::BinarySerializable<Leaf> {
    std::string text = "leaf";
    int number = 0;
};
struct Node : public ReflectiveRapidJSON::BinarySerializable<Node> {
    int id = -1;
    std::shared_ptr<Node> a, b;
};
// node with pointers in various containers and to various types
struct Rich : public ReflectiveRapidJSON::BinarySerializable<Rich> {
    std::shared_ptr<Leaf> leaf;
    std::vector<std::shared_ptr<Rich>> list;
    std::map<std::string, std::shared_ptr<Leaf>> map;
    std::optional<std::shared_ptr<int>> number;
    std::unique_ptr<Rich> owned;
    std::variant<std::shared_ptr<int>, std::shared_ptr<std::string>> var;
};
struct Roots : public ReflectiveRapidJSON::BinarySerializable<Roots> {
    std::shared_ptr<Node> r1;
    Node inner;
    std::shared_ptr<Node> r2;
};
struct Derived : public Leaf, public ReflectiveRapidJSON::BinarySerializable<Derived> {
    int more = 5;
};
// nothing to be written so pointers to this type are not dereferenced
struct Empty : public ReflectiveRapidJSON::BinarySerializable<Empty> {};
struct Pointers : public ReflectiveRapidJSON::BinarySerializable<Pointers> {
    std::vector<std::shared_ptr<Empty>> p;
};
struct Mixed : public ReflectiveRapidJSON::BinarySerializable<Mixed> {
    std::shared_ptr<Leaf> l1;
    std::shared_ptr<Derived> d1;
    std::shared_ptr<std::string> s1;
    std::shared_ptr<Leaf> l2;
};

} // namespace G
#endif
