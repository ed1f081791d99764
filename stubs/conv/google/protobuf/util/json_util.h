#pragma once
#include "google/protobuf/io/zero_copy_stream.h"
#include "google/protobuf/util/type_resolver.h"
namespace google { namespace protobuf { namespace util {
struct JsonPrintOptions { bool add_whitespace = false, always_print_primitive_fields = false, always_print_enums_as_ints = false, preserve_proto_field_names = false; };
absl::Status BinaryToJsonStream(TypeResolver* resolver, const std::string& type_url, io::ZeroCopyInputStream* binary_input, io::ZeroCopyOutputStream* json_output, const JsonPrintOptions& options);   // by the harness
inline absl::Status BinaryToJsonStream(TypeResolver* resolver, const std::string& type_url, io::ZeroCopyInputStream* in, io::ZeroCopyOutputStream* out) { return BinaryToJsonStream(resolver, type_url, in, out, JsonPrintOptions()); }
}}}
