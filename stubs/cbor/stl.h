// Stand-in for the iwanders/cbor submodule, which is not present in this sandbox (thirdparty/cbor is empty).
// Declarations with the shapes the repository uses; the encoding is a private one (length-prefixed native integers),
// sufficient to transport the repository's values between its own sender and its own receiver.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

namespace cbor
{
using Data = std::vector<std::uint8_t>;
struct error : std::runtime_error { using std::runtime_error::runtime_error; };
struct result
{
  bool ok{ true };
  std::size_t n{ 0 };
  result() = default;
  result(bool b) : ok{ b } {}
  explicit operator bool() const { return ok; }
  result& operator+=(const result& o) { ok = ok && o.ok; n += o.n; return *this; }
};

struct writer
{
  Data& d;
  void raw(const void* p, std::size_t n) { auto b = static_cast<const std::uint8_t*>(p); d.insert(d.end(), b, b + n); }
  void u64(std::uint64_t v) { raw(&v, sizeof v); }
  result openArray(std::size_t n) { u64(n); return true; }
};
struct reader
{
  const Data& d;
  std::size_t pos{ 0 };
  std::uint64_t u64()
  {
    if (pos + 8 > d.size()) throw error("truncated");
    std::uint64_t v;
    std::memcpy(&v, d.data() + pos, 8);
    pos += 8;
    return v;
  }
  result expectArray() { return true; }
  result readLength(std::size_t& n) { n = u64(); return true; }
};

template <typename T> std::enable_if_t<std::is_integral<T>::value, result> to_cbor(const T& v, writer& w) { w.u64(static_cast<std::uint64_t>(v)); return true; }
template <typename T> std::enable_if_t<std::is_integral<T>::value, result> from_cbor(T& v, reader& r) { v = static_cast<T>(r.u64()); return true; }
inline result to_cbor(const std::string& s, writer& w) { w.u64(s.size()); w.raw(s.data(), s.size()); return true; }
inline result from_cbor(std::string& s, reader& r)
{
  std::size_t n = r.u64();
  if (n > r.d.size() - r.pos) throw error("truncated");
  s.assign(reinterpret_cast<const char*>(r.d.data()) + r.pos, n);
  r.pos += n;
  return true;
}
template <typename T> result to_cbor(const std::vector<T>& v, writer& w);
template <typename T> result from_cbor(std::vector<T>& v, reader& r);
template <typename K, typename V> result to_cbor(const std::map<K, V>& v, writer& w);
template <typename K, typename V> result from_cbor(std::map<K, V>& v, reader& r);
template <typename T> result to_cbor(const std::unique_ptr<T>& v, writer& w) { return to_cbor(*v, w); }
template <typename T> result from_cbor(std::unique_ptr<T>& v, reader& r) { v.reset(new T()); return from_cbor(*v, r); }

class cbor_object
{
public:
  Data data_;
  cbor_object() = default;
  template <typename T, typename = std::enable_if_t<!std::is_same<std::decay_t<T>, cbor_object>::value>> explicit cbor_object(const T& v)
  {
    writer w{ data_ };
    to_cbor(v, w);
  }
  const Data& serialized() const { return data_; }
  template <typename T> T get() const
  {
    T v{};
    reader r{ data_ };
    from_cbor(v, r);
    return v;
  }
  template <typename T> void get_to(T& v) const { reader r{ data_ }; from_cbor(v, r); }
  template <typename T> operator T() const { return get<T>(); }
};
inline result to_cbor(const cbor_object& o, writer& w) { w.u64(o.data_.size()); w.raw(o.data_.data(), o.data_.size()); return true; }
inline result from_cbor(cbor_object& o, reader& r)
{
  std::size_t n = r.u64();
  if (n > r.d.size() - r.pos) throw error("truncated");
  o.data_.assign(r.d.begin() + r.pos, r.d.begin() + r.pos + n);
  r.pos += n;
  return true;
}
template <typename T> result to_cbor(const std::vector<T>& v, writer& w) { w.u64(v.size()); for (const auto& x : v) to_cbor(x, w); return true; }
template <typename T> result from_cbor(std::vector<T>& v, reader& r)
{
  std::size_t n = r.u64();
  v.clear();
  for (std::size_t i = 0; i < n; i++) { v.emplace_back(); from_cbor(v.back(), r); }
  return true;
}
template <typename K, typename V> result to_cbor(const std::map<K, V>& v, writer& w) { w.u64(v.size()); for (const auto& x : v) { to_cbor(x.first, w); to_cbor(x.second, w); } return true; }
template <typename K, typename V> result from_cbor(std::map<K, V>& v, reader& r)
{
  std::size_t n = r.u64();
  for (std::size_t i = 0; i < n; i++) { K k{}; V x{}; from_cbor(k, r); from_cbor(x, r); v.emplace(std::move(k), std::move(x)); }
  return true;
}
template <typename T> result to_cbor(const T& v, Data& d) { writer w{ d }; return to_cbor(v, w); }
template <typename T> result from_cbor(T& v, const Data& d) { reader r{ d }; return from_cbor(v, r); }
}  // namespace cbor
