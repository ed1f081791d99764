// Plain C++ stand-in for the generated google/api/http.pb.h (symbolic runs only; replays use the generated code)
#pragma once
#include <string>
#include <iterator>
#include <utility>
namespace google { namespace api {
class CustomHttpPattern {
  std::string kind_, path_;
 public:
  static const CustomHttpPattern& default_instance() { static const CustomHttpPattern e; return e; }
  const std::string& kind() const { return kind_; } const std::string& path() const { return path_; }
  void set_kind(const std::string& s) { kind_ = s; } void set_path(const std::string& s) { path_ = s; }
  std::string* mutable_kind() { return &kind_; } std::string* mutable_path() { return &path_; }
  void clear_kind() { kind_.clear(); } void clear_path() { path_.clear(); } void Clear() { clear_kind(); clear_path(); }
  void CopyFrom(const CustomHttpPattern& o) { *this = o; }
};
class HttpRule;
class HttpRule {
 public:
  enum PatternCase { kGet = 2, kPut = 3, kPost = 4, kDelete = 5, kPatch = 6, kCustom = 8, PATTERN_NOT_SET = 0 };
  // an array of owned rules, iterated like a RepeatedPtrField
  class Rules {
    HttpRule* p_[160] = {}; int n_ = 0;
    template <class R> struct Iter {
      HttpRule* const* p; R& operator*() const { return **p; } R* operator->() const { return *p; }
      Iter& operator++() { ++p; return *this; } Iter operator++(int) { Iter o = *this; ++p; return o; } Iter& operator--() { --p; return *this; } Iter operator--(int) { Iter o = *this; --p; return o; }
      Iter& operator+=(long n) { p += n; return *this; } Iter& operator-=(long n) { p -= n; return *this; } Iter operator+(long n) const { return {p + n}; } Iter operator-(long n) const { return {p - n}; } long operator-(const Iter& o) const { return p - o.p; } R& operator[](long n) const { return *p[n]; }
      bool operator!=(const Iter& o) const { return p != o.p; } bool operator==(const Iter& o) const { return p == o.p; } bool operator<(const Iter& o) const { return p < o.p; } bool operator>(const Iter& o) const { return p > o.p; } bool operator<=(const Iter& o) const { return p <= o.p; } bool operator>=(const Iter& o) const { return p >= o.p; }
      operator Iter<const R>() const { return {p}; }
      using iterator_category = std::random_access_iterator_tag; using value_type = HttpRule; using difference_type = long; using pointer = R*; using reference = R&;
    };
   public:
    using value_type = HttpRule; using const_iterator = Iter<const HttpRule>; using iterator = Iter<HttpRule>; using size_type = int; using const_reference = const HttpRule&; using reference = HttpRule&;
    Rules() {} Rules(const Rules& o) { CopyFrom(o); } Rules& operator=(const Rules& o) { if (this != &o) { Rules t(o); Swap(&t); } return *this; } ~Rules() { Clear(); }
    Rules(Rules&& o) { Swap(&o); } Rules& operator=(Rules&& o) { Swap(&o); return *this; }
    const_iterator begin() const { return {p_}; } const_iterator end() const { return {p_ + n_}; } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); } iterator begin() { return {p_}; } iterator end() { return {p_ + n_}; }
    int size() const { return n_; } bool empty() const { return n_ == 0; }
    const HttpRule& operator[](int i) const { return *p_[i]; } const HttpRule& Get(int i) const { return *p_[i]; } const HttpRule& at(int i) const { return *p_[i]; } HttpRule* Mutable(int i) { return p_[i]; }
    HttpRule* Add(); void Clear(); void CopyFrom(const Rules& o); void Swap(Rules* o) { std::swap(p_, o->p_); std::swap(n_, o->n_); }
    const HttpRule& front() const { return *p_[0]; } const HttpRule& back() const { return *p_[n_ - 1]; }
  };
 private:
  int case_ = 0; std::string text_; CustomHttpPattern custom_; std::string body_, response_body_, selector_; Rules rules_;
  static const std::string& none() { static const std::string e; return e; }
  const std::string& text(int c) const { return case_ == c ? text_ : none(); }
  void set(int c, const std::string& s) { case_ = c; text_ = s; }
  std::string* mut(int c) { if (case_ != c) { case_ = c; text_.clear(); } return &text_; }
  void clr(int c) { if (case_ == c) clear_pattern(); }
 public:
  HttpRule() {} HttpRule(const HttpRule&) = default; HttpRule& operator=(const HttpRule&) = default; HttpRule(HttpRule&&) = default; HttpRule& operator=(HttpRule&&) = default;
  static const HttpRule& default_instance() { static const HttpRule e; return e; }
  void CopyFrom(const HttpRule& o) { *this = o; } void Clear() { *this = HttpRule(); } void Swap(HttpRule* o) { std::swap(*this, *o); }
  PatternCase pattern_case() const { return (PatternCase)case_; } void clear_pattern() { case_ = 0; text_.clear(); custom_.Clear(); }
  const std::string& get() const { return text(kGet); } const std::string& put() const { return text(kPut); } const std::string& post() const { return text(kPost); }
  const std::string& delete_() const { return text(kDelete); } const std::string& patch() const { return text(kPatch); }
  const CustomHttpPattern& custom() const { return case_ == kCustom ? custom_ : CustomHttpPattern::default_instance(); }
  bool has_get() const { return case_ == kGet; } bool has_put() const { return case_ == kPut; } bool has_post() const { return case_ == kPost; }
  bool has_delete_() const { return case_ == kDelete; } bool has_patch() const { return case_ == kPatch; } bool has_custom() const { return case_ == kCustom; }
  void set_get(const std::string& s) { set(kGet, s); } void set_put(const std::string& s) { set(kPut, s); } void set_post(const std::string& s) { set(kPost, s); }
  void set_delete_(const std::string& s) { set(kDelete, s); } void set_patch(const std::string& s) { set(kPatch, s); }
  std::string* mutable_get() { return mut(kGet); } std::string* mutable_put() { return mut(kPut); } std::string* mutable_post() { return mut(kPost); } std::string* mutable_delete_() { return mut(kDelete); } std::string* mutable_patch() { return mut(kPatch); }
  void clear_get() { clr(kGet); } void clear_put() { clr(kPut); } void clear_post() { clr(kPost); } void clear_delete_() { clr(kDelete); } void clear_patch() { clr(kPatch); } void clear_custom() { clr(kCustom); }
  CustomHttpPattern* mutable_custom() { case_ = kCustom; return &custom_; }
  const std::string& body() const { return body_; } void set_body(const std::string& s) { body_ = s; } std::string* mutable_body() { return &body_; } void clear_body() { body_.clear(); }
  const std::string& response_body() const { return response_body_; } void set_response_body(const std::string& s) { response_body_ = s; } std::string* mutable_response_body() { return &response_body_; } void clear_response_body() { response_body_.clear(); }
  const std::string& selector() const { return selector_; } void set_selector(const std::string& s) { selector_ = s; } std::string* mutable_selector() { return &selector_; } void clear_selector() { selector_.clear(); }
  const Rules& additional_bindings() const { return rules_; } Rules* mutable_additional_bindings() { return &rules_; } int additional_bindings_size() const { return rules_.size(); } void clear_additional_bindings() { rules_.Clear(); }
  const HttpRule& additional_bindings(int i) const { return rules_.Get(i); } HttpRule* mutable_additional_bindings(int i) { return rules_.Mutable(i); } HttpRule* add_additional_bindings() { return rules_.Add(); }
};
inline HttpRule* HttpRule::Rules::Add() { return p_[n_++] = new HttpRule; }
inline void HttpRule::Rules::Clear() { while (n_) delete p_[--n_]; }
inline void HttpRule::Rules::CopyFrom(const Rules& o) { if (this == &o) return; Clear(); for (int i = 0; i < o.n_; i++) *Add() = *o.p_[i]; }
}}
