#pragma once
#include <string>
namespace google { namespace protobuf { namespace util { namespace converter {
class LocationTrackerInterface { public: virtual ~LocationTrackerInterface() {} virtual std::string ToString() const = 0; };
}}}}
