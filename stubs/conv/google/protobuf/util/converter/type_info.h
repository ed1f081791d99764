#pragma once
#include "google/protobuf/util/type_resolver.h"
namespace google { namespace protobuf { namespace util { namespace converter {
class TypeInfo {
 public:
  virtual ~TypeInfo() {}
  virtual absl::StatusOr<const Type*> ResolveTypeUrl(absl::string_view type_url) const = 0;
  virtual const Type* GetTypeByTypeUrl(absl::string_view type_url) const = 0;
  virtual const Enum* GetEnumByTypeUrl(absl::string_view type_url) const = 0;
  virtual const Field* FindField(const Type* type, absl::string_view camel_case_name) const = 0;
  static TypeInfo* NewTypeInfo(TypeResolver* type_resolver);   // by the harness
 protected:
  TypeInfo() {}
};
}}}}
