#pragma once
#include <cstddef>
#include <string>
namespace google { namespace protobuf { namespace strings {
class ByteSink { public: virtual ~ByteSink() {} virtual void Append(const char* bytes, size_t n) = 0; virtual void Flush() {} };
class StringByteSink : public ByteSink { std::string* dest_; public: explicit StringByteSink(std::string* dest) : dest_(dest) {} void Append(const char* b, size_t n) override { dest_->append(b, n); } std::string* dest() { return dest_; } };
}}}
