// Solver-side stand-in for the generated message class of id.proto.
#ifndef SYMX_ID_PB_
#define SYMX_ID_PB_
#include <cstdint>
#include <vector>
namespace google { namespace protobuf {
typedef uint64_t uint64;
template <class T> class RepeatedField {
  std::vector<T> v_;
 public:
  int size() const { return (int)v_.size(); }
  const T* data() const { return v_.data(); }
  T* mutable_data() { return v_.data(); }
  T* Add() { v_.push_back(T()); return &v_.back(); }
  void Add(const T& t) { v_.push_back(t); }
  void Clear() { v_.clear(); }
  void Resize(int n, const T& t) { v_.resize(n, t); }
  void Reserve(int n) { v_.reserve(n); }
  void Set(int i, const T& t) { v_.at(i) = t; }
  const T& Get(int i) const { return v_.at(i); }
  T* Mutable(int i) { return &v_.at(i); }
  const T& operator[](int i) const { return v_.at(i); }
  T* begin() { return v_.data(); } T* end() { return v_.data() + v_.size(); }
  const T* begin() const { return v_.data(); } const T* end() const { return v_.data() + v_.size(); }
};
} }
namespace aslam { namespace proto {
class Id {
  google::protobuf::RepeatedField<google::protobuf::uint64> f_;
 public:
  int uint_size() const { return f_.size(); }
  void clear_uint() { f_.Clear(); }
  google::protobuf::uint64 uint(int i) const { return f_.Get(i); }
  void set_uint(int i, google::protobuf::uint64 v) { f_.Set(i, v); }
  void add_uint(google::protobuf::uint64 v) { f_.Add(v); }
  const google::protobuf::RepeatedField<google::protobuf::uint64>& uint() const { return f_; }
  google::protobuf::RepeatedField<google::protobuf::uint64>* mutable_uint() { return &f_; }
};
} }
#endif
