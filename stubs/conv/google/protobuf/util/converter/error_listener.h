#pragma once
#include <string>
#include "google/protobuf/type.pb.h"
#include "google/protobuf/util/converter/location_tracker.h"
namespace google { namespace protobuf { namespace util { namespace converter {
class ErrorListener {
 public:
  virtual ~ErrorListener() {}
  virtual void InvalidName(const LocationTrackerInterface& loc, absl::string_view unknown_name, absl::string_view message) = 0;
  virtual void InvalidValue(const LocationTrackerInterface& loc, absl::string_view type_name, absl::string_view value) = 0;
  virtual void MissingField(const LocationTrackerInterface& loc, absl::string_view missing_name) = 0;
 protected:
  ErrorListener() {}
};
}}}}
