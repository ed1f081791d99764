// Plain C++ stand-in for google/protobuf/type.pb.h
#pragma once
#include <cstdint>
#include <initializer_list>
#include <string>
#include <utility>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace google { namespace protobuf {
typedef int32_t int32; typedef int64_t int64; typedef uint32_t uint32; typedef uint64_t uint64;
// A repeated field with the members RepeatedPtrField has.
template <class T> class StandInRepeated {
  std::vector<T> v_;
 public:
  StandInRepeated() {} StandInRepeated(std::initializer_list<T> l) : v_(l) {} template <class I> StandInRepeated(I a, I b) : v_(a, b) {}
  using value_type = T; using iterator = typename std::vector<T>::iterator; using const_iterator = typename std::vector<T>::const_iterator; using reference = T&; using const_reference = const T&; using size_type = int; using difference_type = std::ptrdiff_t;
  iterator begin() { return v_.begin(); } iterator end() { return v_.end(); } const_iterator begin() const { return v_.begin(); } const_iterator end() const { return v_.end(); } const_iterator cbegin() const { return v_.begin(); } const_iterator cend() const { return v_.end(); }
  auto rbegin() { return v_.rbegin(); } auto rend() { return v_.rend(); } auto rbegin() const { return v_.rbegin(); } auto rend() const { return v_.rend(); }
  int size() const { return (int)v_.size(); } bool empty() const { return v_.empty(); } void Clear() { v_.clear(); } void Reserve(int n) { v_.reserve(n); }
  const T& operator[](int i) const { return v_[i]; } T& operator[](int i) { return v_[i]; } const T& Get(int i) const { return v_[i]; } const T& at(int i) const { return v_[i]; } T& at(int i) { return v_[i]; } T* Mutable(int i) { return &v_[i]; }
  T* Add() { v_.emplace_back(); return &v_.back(); } void Add(T t) { v_.push_back(std::move(t)); } void push_back(T t) { v_.push_back(std::move(t)); } template <class... A> void emplace_back(A&&... a) { v_.emplace_back(std::forward<A>(a)...); }
  void RemoveLast() { v_.pop_back(); } iterator erase(const_iterator i) { return v_.erase(i); } iterator erase(const_iterator a, const_iterator b) { return v_.erase(a, b); }
  void CopyFrom(const StandInRepeated& o) { v_ = o.v_; } void MergeFrom(const StandInRepeated& o) { v_.insert(v_.end(), o.v_.begin(), o.v_.end()); } void Swap(StandInRepeated* o) { v_.swap(o->v_); }
};
#define SI_STR(f) const std::string& f() const { return f##_; } void set_##f(std::string n) { f##_ = std::move(n); } void set_##f(const char* n) { f##_ = n; } void set_##f(absl::string_view n) { f##_.assign(n.data(), n.size()); } void set_##f(const char* n, size_t k) { f##_.assign(n, k); } std::string* mutable_##f() { return &f##_; } void clear_##f() { f##_.clear(); }
#define SI_REP(T, f) const StandInRepeated<T>& f() const { return f##_; } StandInRepeated<T>* mutable_##f() { return &f##_; } int f##_size() const { return f##_.size(); } const T& f(int i) const { return f##_[i]; } T* mutable_##f(int i) { return &f##_[i]; } T* add_##f() { return f##_.Add(); } void clear_##f() { f##_.Clear(); }
#define SI_MSG(T) static const T& default_instance() { static const T e; return e; } void CopyFrom(const T& o) { *this = o; } void Clear() { *this = T(); } void Swap(T* o) { std::swap(*this, *o); }
class Any { std::string type_url_, value_; public: SI_STR(type_url) SI_STR(value) SI_MSG(Any) };
class Option { std::string name_; Any value_; bool has_ = false; public: SI_STR(name) SI_MSG(Option) const Any& value() const { return value_; } Any* mutable_value() { has_ = true; return &value_; } bool has_value() const { return has_; } void clear_value() { has_ = false; value_.Clear(); } };
class Field {
 public:
  enum Kind { TYPE_UNKNOWN = 0, TYPE_DOUBLE, TYPE_FLOAT, TYPE_INT64, TYPE_UINT64, TYPE_INT32, TYPE_FIXED64, TYPE_FIXED32, TYPE_BOOL, TYPE_STRING, TYPE_GROUP, TYPE_MESSAGE, TYPE_BYTES, TYPE_UINT32, TYPE_ENUM, TYPE_SFIXED32, TYPE_SFIXED64, TYPE_SINT32, TYPE_SINT64 };
  enum Cardinality { CARDINALITY_UNKNOWN = 0, CARDINALITY_OPTIONAL, CARDINALITY_REQUIRED, CARDINALITY_REPEATED };
  SI_MSG(Field) SI_STR(name) SI_STR(json_name) SI_STR(type_url) SI_STR(default_value) SI_REP(Option, options)
  Kind kind() const { return kind_; } void set_kind(Kind k) { kind_ = k; }
  Cardinality cardinality() const { return card_; } void set_cardinality(Cardinality c) { card_ = c; }
  int32_t number() const { return number_; } void set_number(int32_t n) { number_ = n; }
  int32_t oneof_index() const { return oneof_index_; } void set_oneof_index(int32_t n) { oneof_index_ = n; } bool packed() const { return packed_; } void set_packed(bool p) { packed_ = p; }
 private:
  std::string name_, json_name_, type_url_, default_value_; Kind kind_ = TYPE_UNKNOWN; Cardinality card_ = CARDINALITY_UNKNOWN; int32_t number_ = 0, oneof_index_ = 0; bool packed_ = false; StandInRepeated<Option> options_;
};
typedef Field::Kind Field_Kind; typedef Field::Cardinality Field_Cardinality;
const Field::Kind Field_Kind_TYPE_MESSAGE = Field::TYPE_MESSAGE, Field_Kind_TYPE_GROUP = Field::TYPE_GROUP, Field_Kind_TYPE_ENUM = Field::TYPE_ENUM;
const Field::Cardinality Field_Cardinality_CARDINALITY_REPEATED = Field::CARDINALITY_REPEATED;
class Type {
  std::string name_; StandInRepeated<Field> fields_; StandInRepeated<Option> options_; StandInRepeated<std::string> oneofs_;
 public:
  SI_MSG(Type) SI_STR(name) SI_REP(Field, fields) SI_REP(Option, options) SI_REP(std::string, oneofs)
  void MergeFrom(const Type& o) { if (!o.name_.empty()) name_ = o.name_; fields_.MergeFrom(o.fields_); options_.MergeFrom(o.options_); oneofs_.MergeFrom(o.oneofs_); }
};
class EnumValue { std::string name_; int32_t number_ = 0; StandInRepeated<Option> options_; public: SI_MSG(EnumValue) SI_STR(name) SI_REP(Option, options) int32_t number() const { return number_; } void set_number(int32_t n) { number_ = n; } };
class Enum { std::string name_; StandInRepeated<EnumValue> enumvalue_; StandInRepeated<Option> options_; public: SI_MSG(Enum) SI_STR(name) SI_REP(EnumValue, enumvalue) SI_REP(Option, options) void MergeFrom(const Enum& o) { if (!o.name_.empty()) name_ = o.name_; enumvalue_.MergeFrom(o.enumvalue_); options_.MergeFrom(o.options_); } };
}}
