#pragma once
#include "google/protobuf/type.pb.h"
namespace google { namespace protobuf { namespace util {
class TypeResolver {
 public:
  virtual ~TypeResolver() {}
  virtual absl::Status ResolveMessageType(const std::string& type_url, Type* message_type) = 0;
  virtual absl::Status ResolveEnumType(const std::string& type_url, Enum* enum_type) = 0;
};
}}}
