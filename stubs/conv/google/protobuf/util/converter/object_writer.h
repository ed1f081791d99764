#pragma once
#include <cstdint>
#include "google/protobuf/type.pb.h"
namespace google { namespace protobuf { namespace util { namespace converter {
class DataPiece;
class ObjectWriter {
 public:
  virtual ~ObjectWriter() {}
  virtual ObjectWriter* StartObject(absl::string_view name) = 0;
  virtual ObjectWriter* EndObject() = 0;
  virtual ObjectWriter* StartList(absl::string_view name) = 0;
  virtual ObjectWriter* EndList() = 0;
  virtual ObjectWriter* RenderBool(absl::string_view name, bool value) = 0;
  virtual ObjectWriter* RenderInt32(absl::string_view name, int32_t value) = 0;
  virtual ObjectWriter* RenderUint32(absl::string_view name, uint32_t value) = 0;
  virtual ObjectWriter* RenderInt64(absl::string_view name, int64_t value) = 0;
  virtual ObjectWriter* RenderUint64(absl::string_view name, uint64_t value) = 0;
  virtual ObjectWriter* RenderDouble(absl::string_view name, double value) = 0;
  virtual ObjectWriter* RenderFloat(absl::string_view name, float value) = 0;
  virtual ObjectWriter* RenderString(absl::string_view name, absl::string_view value) = 0;
  virtual ObjectWriter* RenderBytes(absl::string_view name, absl::string_view value) = 0;
  virtual ObjectWriter* RenderNull(absl::string_view name) = 0;
  static void RenderDataPieceTo(const DataPiece& data, absl::string_view name, ObjectWriter* ow);
  virtual bool done() { return false; }
  void set_use_strict_base64_decoding(bool v) { use_strict_base64_decoding_ = v; }
  bool use_strict_base64_decoding() const { return use_strict_base64_decoding_; }
 protected:
  ObjectWriter() {}
 private:
  bool use_strict_base64_decoding_ = true;
};
}}}}
