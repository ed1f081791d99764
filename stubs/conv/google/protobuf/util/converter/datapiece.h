// Stand-in for the converter library's DataPiece: string -> number conversion is a hook the harness decides.
#pragma once
#include "google/protobuf/util/converter/object_writer.h"
namespace google { namespace protobuf { namespace util { namespace converter {
struct ConvHook {   // the number a binding text denotes: sign and magnitude, chosen by the harness; or text that is no number
  static bool integer(absl::string_view text, bool* neg, uint64_t* mag);
  static bool real(absl::string_view text, double* v);
  static bool boolean(absl::string_view text, bool* v);
};
class DataPiece {
 public:
  enum Type { TYPE_INT32 = 1, TYPE_INT64 = 2, TYPE_UINT32 = 3, TYPE_UINT64 = 4, TYPE_DOUBLE = 5, TYPE_FLOAT = 6, TYPE_BOOL = 7, TYPE_ENUM = 8, TYPE_STRING = 9, TYPE_BYTES = 10, TYPE_NULL = 11 };
  explicit DataPiece(const int32_t v) : type_(TYPE_INT32), i_(v) {}
  explicit DataPiece(const int64_t v) : type_(TYPE_INT64), i_(v) {}
  explicit DataPiece(const uint32_t v) : type_(TYPE_UINT32), u_(v) {}
  explicit DataPiece(const uint64_t v) : type_(TYPE_UINT64), u_(v) {}
  explicit DataPiece(const double v) : type_(TYPE_DOUBLE), d_(v) {}
  explicit DataPiece(const float v) : type_(TYPE_FLOAT), d_(v) {}
  explicit DataPiece(const bool v) : type_(TYPE_BOOL), u_(v) {}
  DataPiece(absl::string_view v, bool /*use_strict_base64_decoding*/) : type_(TYPE_STRING), s_(v) {}
  DataPiece(absl::string_view v, bool /*unused*/, bool /*use_strict_base64_decoding*/) : type_(TYPE_BYTES), s_(v) {}
  static DataPiece NullData() { DataPiece d(false); d.type_ = TYPE_NULL; return d; }
  Type type() const { return type_; }
  absl::string_view str() const { return s_; }
  absl::StatusOr<int32_t> ToInt32() const { bool n; uint64_t m; if (!num(&n, &m) || m > (uint64_t)INT32_MAX + n) return bad(); return (int32_t)(n ? 0 - m : m); }
  absl::StatusOr<int64_t> ToInt64() const { bool n; uint64_t m; if (!num(&n, &m) || m > (uint64_t)INT64_MAX + n) return bad(); return (int64_t)(n ? 0 - m : m); }
  absl::StatusOr<uint32_t> ToUint32() const { bool n; uint64_t m; if (!num(&n, &m) || (n && m) || m > UINT32_MAX) return bad(); return (uint32_t)m; }
  absl::StatusOr<uint64_t> ToUint64() const { bool n; uint64_t m; if (!num(&n, &m) || (n && m)) return bad(); return m; }
  absl::StatusOr<double> ToDouble() const { if (type_ == TYPE_DOUBLE || type_ == TYPE_FLOAT) return d_; double v; if (type_ == TYPE_STRING && ConvHook::real(s_, &v)) return v; return bad(); }
  absl::StatusOr<float> ToFloat() const { if (type_ == TYPE_DOUBLE || type_ == TYPE_FLOAT) return (float)d_; double v; if (type_ == TYPE_STRING && ConvHook::real(s_, &v)) return (float)v; return bad(); }
  absl::StatusOr<bool> ToBool() const { if (type_ == TYPE_BOOL) return u_ != 0; bool v; if (type_ == TYPE_STRING && ConvHook::boolean(s_, &v)) return v; return bad(); }
  absl::StatusOr<std::string> ToString() const { if (type_ == TYPE_STRING || type_ == TYPE_BYTES) return std::string(s_.data(), s_.size()); return bad(); }
  absl::StatusOr<std::string> ToBytes() const { if (type_ == TYPE_STRING || type_ == TYPE_BYTES) return std::string(s_.data(), s_.size()); return bad(); }
  std::string ValueAsStringOrDefault(absl::string_view d) const { if (type_ == TYPE_STRING) return "\"" + std::string(s_.data(), s_.size()) + "\""; return std::string(d.data(), d.size()); }
 private:
  static absl::Status bad() { return absl::Status(absl::StatusCode::kInvalidArgument, "bad"); }
  bool num(bool* n, uint64_t* m) const {
    switch (type_) {
      case TYPE_INT32: case TYPE_INT64: *n = i_ < 0; *m = i_ < 0 ? 0 - (uint64_t)i_ : (uint64_t)i_; return true;
      case TYPE_UINT32: case TYPE_UINT64: *n = false; *m = u_; return true;
      case TYPE_STRING: return ConvHook::integer(s_, n, m);
      default: return false;
    }
  }
  Type type_; int64_t i_ = 0; uint64_t u_ = 0; double d_ = 0; absl::string_view s_;
};
inline void ObjectWriter::RenderDataPieceTo(const DataPiece& d, absl::string_view name, ObjectWriter* ow) {
  switch (d.type()) {
    case DataPiece::TYPE_INT32: ow->RenderInt32(name, d.ToInt32().value()); break;
    case DataPiece::TYPE_INT64: ow->RenderInt64(name, d.ToInt64().value()); break;
    case DataPiece::TYPE_UINT32: ow->RenderUint32(name, d.ToUint32().value()); break;
    case DataPiece::TYPE_UINT64: ow->RenderUint64(name, d.ToUint64().value()); break;
    case DataPiece::TYPE_DOUBLE: ow->RenderDouble(name, d.ToDouble().value()); break;
    case DataPiece::TYPE_FLOAT: ow->RenderFloat(name, d.ToFloat().value()); break;
    case DataPiece::TYPE_BOOL: ow->RenderBool(name, d.ToBool().value()); break;
    case DataPiece::TYPE_STRING: ow->RenderString(name, d.str()); break;
    case DataPiece::TYPE_BYTES: ow->RenderBytes(name, d.str()); break;
    case DataPiece::TYPE_NULL: ow->RenderNull(name); break;
    default: break;
  }
}
}}}}
