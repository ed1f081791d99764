#pragma once
#include "google/protobuf/util/converter/object_writer.h"
namespace google { namespace protobuf { namespace util { namespace converter {
class JsonStreamParser {   // by the harness
 public:
  explicit JsonStreamParser(ObjectWriter* ow) : ow_(ow) {}
  ~JsonStreamParser() {}
  absl::Status Parse(absl::string_view json);
  absl::Status FinishParse();
 private:
  ObjectWriter* ow_;
};
}}}}
