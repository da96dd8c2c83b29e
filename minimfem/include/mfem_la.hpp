// Stand-in for the parts of MFEM the solver uses: arrays, vectors, matrices,
// operators and time integrators.  Semantics follow MFEM's documentation.
#pragma once

#include <mpi.h>

#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#define MFEM_VERSION 40800
#define MFEM_USE_MPI
#define MFEM_HOST_DEVICE
#define MFEM_DEVICE
#define MFEM_HOST
#define MFEM_DEPRECATED
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif

namespace mfem {

using real_t = double;
typedef real_t mfem_real;
using std::size_t;

[[noreturn]] void mfem_fail(const std::string& what);

#define MFEM_ABORT(msg) do { std::ostringstream os_; os_ << msg; mfem::mfem_fail(os_.str()); } while (0)
#define MFEM_VERIFY(x, msg) do { if (!(x)) { std::ostringstream os_; os_ << #x << ": " << msg; mfem::mfem_fail(os_.str()); } } while (0)
#define MFEM_ASSERT(x, msg) do { } while (0)
#define MFEM_WARNING(msg) do { } while (0)
#define MFEM_CONTRACT_VAR(x) (void)x
void mfem_error(const char* msg = nullptr);
void mfem_warning(const char* msg = nullptr);

extern std::ostream& out;
extern std::ostream& err;

inline real_t infinity() { return std::numeric_limits<real_t>::infinity(); }

template <typename T>
class Memory {
public:
  Memory() = default;
  explicit Memory(int n) : p_(n > 0 ? new T[n] : new T[1]), n_(n) {}
  Memory(T* p, int n, bool own) : p_(p), n_(n) { (void)own; }
  operator T*() const { return p_; }
  template <typename U> explicit operator U*() const { return (U*)p_; }
  T& operator[](int i) { return p_[i]; }
  const T& operator[](int i) const { return p_[i]; }
  void Delete() { delete[] p_; p_ = nullptr; n_ = 0; }
  int Capacity() const { return n_; }
  bool Empty() const { return p_ == nullptr; }
private:
  T* p_ = nullptr;
  int n_ = 0;
};

template <class T> inline void Swap(T& a, T& b) { T c = std::move(a); a = std::move(b); b = std::move(c); }

template <class T>
class Array {
public:
  Array() = default;
  explicit Array(int n) { Alloc(n); }
  Array(T* d, int n, bool own = false) : data_(d), size_(n), cap_(n), own_(own) {}
  Array(const Array& o) { CopyFrom_(o.data_, o.size_); }
  template <class U> explicit Array(const Array<U>& o) { Alloc(o.Size()); for (int i = 0; i < size_; i++) data_[i] = T(o[i]); }
  Array(Array&& o) noexcept { Steal(o); }
  Array(std::initializer_list<T> l) { Alloc((int)l.size()); std::copy(l.begin(), l.end(), data_); }
  template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
  Array(It b, It e) { Alloc((int)std::distance(b, e)); std::copy(b, e, data_); }
  template <typename U, int N> explicit Array(const U (&v)[N]) { Alloc(N); std::copy(v, v + N, data_); }
  ~Array() { Free(); }
  Array& operator=(const Array& o) { if (this != &o) { Free(); CopyFrom_(o.data_, o.size_); } return *this; }
  Array& operator=(Array&& o) noexcept { if (this != &o) { Free(); Steal(o); } return *this; }
  Array& operator=(const T& a) { for (int i = 0; i < size_; i++) data_[i] = a; return *this; }
  template <class U> Array& operator=(const Array<U>& o) { SetSize(o.Size()); for (int i = 0; i < size_; i++) data_[i] = T(o[i]); return *this; }
  void Assign(const T* p) { std::copy(p, p + size_, data_); }

  operator T*() { return data_; }
  operator const T*() const { return data_; }
  T* GetData() { return data_; }
  const T* GetData() const { return data_; }
  bool OwnsData() const { return own_; }
  void LoseData() { data_ = nullptr; size_ = cap_ = 0; own_ = true; }
  void StealData(T** p) { *p = data_; LoseData(); }
  void MakeDataOwner() { own_ = true; }
  int Size() const { return size_; }
  bool IsEmpty() const { return size_ == 0; }
  int Capacity() const { return cap_; }
  void Reserve(int c) { Grow(c); }
  void SetSize(int n) { Grow(n); size_ = n; }
  void SetSize(int n, const T& v) { int o = size_; Grow(n); size_ = n; for (int i = o; i < n; i++) data_[i] = v; }
  int Append(const T& el) { T c = el; if (size_ == cap_ || !own_) Grow2(size_ + 1); data_[size_++] = c; return size_; }
  int Append(const T* els, int n) { for (int i = 0; i < n; i++) Append(els[i]); return size_; }
  int Append(const Array& o) { Array c(o); for (int i = 0; i < c.size_; i++) Append(c.data_[i]); return size_; }
  int Prepend(const T& el) { Append(el); for (int i = size_ - 1; i > 0; i--) data_[i] = data_[i - 1]; data_[0] = el; return size_; }
  T& Last() { return data_[size_ - 1]; }
  const T& Last() const { return data_[size_ - 1]; }
  int Union(const T& el) { int i = 0; while (i < size_ && !(data_[i] == el)) i++; if (i == size_) Append(el); return i; }
  int Find(const T& el) const { for (int i = 0; i < size_; i++) if (data_[i] == el) return i; return -1; }
  int FindSorted(const T& el) const { auto it = std::lower_bound(data_, data_ + size_, el); return (it != data_ + size_ && *it == el) ? int(it - data_) : -1; }
  void DeleteLast() { if (size_ > 0) size_--; }
  void DeleteFirst(const T& el) { int i = Find(el); if (i < 0) return; for (i++; i < size_; i++) data_[i - 1] = data_[i]; size_--; }
  void DeleteAll() { Free(); }
  void Copy(Array& c) const { c = *this; }
  void MakeRef(T* p, int n, bool own = false) { Free(); data_ = p; size_ = cap_ = n; own_ = own; }
  void MakeRef(const Array& o) { Free(); data_ = o.data_; size_ = cap_ = o.size_; own_ = false; }
  void GetSubArray(int off, int n, Array& sa) const { sa.SetSize(n); for (int i = 0; i < n; i++) sa[i] = data_[off + i]; }
  T Max() const { T m = data_[0]; for (int i = 1; i < size_; i++) if (m < data_[i]) m = data_[i]; return m; }
  T Min() const { T m = data_[0]; for (int i = 1; i < size_; i++) if (data_[i] < m) m = data_[i]; return m; }
  T Sum() const { T s{}; for (int i = 0; i < size_; i++) s += data_[i]; return s; }
  void Sort() { std::sort(data_, data_ + size_); }
  template <class C> void Sort(C c) { std::sort(data_, data_ + size_, c); }
  void Unique() { size_ = int(std::unique(data_, data_ + size_) - data_); }
  bool IsSorted() const { return std::is_sorted(data_, data_ + size_); }
  void PartialSum() { for (int i = 1; i < size_; i++) data_[i] += data_[i - 1]; }
  void Abs() { for (int i = 0; i < size_; i++) data_[i] = data_[i] < T(0) ? T(-data_[i]) : data_[i]; }
  T& operator[](int i) { return data_[i]; }
  const T& operator[](int i) const { return data_[i]; }
  T* begin() { return data_; }
  T* end() { return data_ + size_; }
  const T* begin() const { return data_; }
  const T* end() const { return data_ + size_; }
  const T* cbegin() const { return data_; }
  const T* cend() const { return data_ + size_; }
  T* Read() { return data_; }
  const T* Read(bool = true) const { return data_; }
  const T* HostRead() const { return data_; }
  T* Write(bool = true) { return data_; }
  T* HostWrite() { return data_; }
  T* ReadWrite(bool = true) { return data_; }
  T* HostReadWrite() { return data_; }
  void UseDevice(bool) const {}
  void Print(std::ostream& os = std::cout, int width = 4) const {
    for (int i = 0; i < size_; i++) { os << data_[i]; os << (((i + 1) % width == 0 || i + 1 == size_) ? '\n' : ' '); }
  }
  void Save(std::ostream& os, int fmt = 0) const { if (fmt == 0) os << size_ << '\n'; for (int i = 0; i < size_; i++) os << data_[i] << '\n'; }
  void Load(std::istream& in, int fmt = 0) { if (fmt == 0) { int n; in >> n; SetSize(n); } for (int i = 0; i < size_; i++) in >> data_[i]; }
  void Swap(Array& o) { std::swap(data_, o.data_); std::swap(size_, o.size_); std::swap(cap_, o.cap_); std::swap(own_, o.own_); }
  friend bool operator==(const Array& a, const Array& b) { return a.size_ == b.size_ && std::equal(a.begin(), a.end(), b.begin()); }
  friend bool operator!=(const Array& a, const Array& b) { return !(a == b); }

private:
  // Fresh entries hold anything; ones show up where zeros were taken for granted.
  static void Poison(T* d, int from, int to) { if constexpr (std::is_arithmetic_v<T>) for (int i = from; i < to; i++) d[i] = T(1); }
  void Alloc(int n) { data_ = n > 0 ? new T[n]() : nullptr; size_ = cap_ = n; own_ = true; Poison(data_, 0, n); }
  void CopyFrom_(const T* d, int n) { Alloc(n); for (int i = 0; i < n; i++) data_[i] = d[i]; }
  void Steal(Array& o) { data_ = o.data_; size_ = o.size_; cap_ = o.cap_; own_ = o.own_; o.data_ = nullptr; o.size_ = o.cap_ = 0; o.own_ = true; }
  void Free() { if (own_) delete[] data_; data_ = nullptr; size_ = cap_ = 0; own_ = true; }
  void Grow(int c) {
    if (c <= cap_) return;
    T* d = new T[c]();
    for (int i = 0; i < size_; i++) d[i] = std::move(data_[i]);
    Poison(d, size_, c);
    if (own_) delete[] data_;
    data_ = d; cap_ = c; own_ = true;
  }
  void Grow2(int c) { if (c > cap_) Grow(std::max(c, 2 * cap_)); else if (!own_) { int n = size_; T* d = new T[c](); for (int i = 0; i < n; i++) d[i] = data_[i]; data_ = d; cap_ = c; own_ = true; } }
  T* data_ = nullptr;
  int size_ = 0, cap_ = 0;
  bool own_ = true;
};

class Vector {
public:
  Vector() = default;
  explicit Vector(int n) { Alloc(n); }
  Vector(real_t* d, int n) : data_(d), size_(n), cap_(n), own_(false) {}
  Vector(Vector& base, int off, int n) : data_(base.data_ + off), size_(n), cap_(n), own_(false) {}
  Vector(const Vector& o) { Alloc(o.size_); std::copy(o.data_, o.data_ + size_, data_); }
  Vector(Vector&& o) noexcept { Steal(o); }
  template <int N> explicit Vector(const real_t (&v)[N]) { Alloc(N); std::copy(v, v + N, data_); }
  Vector(std::initializer_list<real_t> l) { Alloc((int)l.size()); std::copy(l.begin(), l.end(), data_); }
  virtual ~Vector() { Free(); }
  Vector& operator=(const Vector& o) { if (this != &o) { SetSize(o.size_); std::copy(o.data_, o.data_ + size_, data_); } return *this; }
  Vector& operator=(Vector&& o) {
    if (this != &o) {
      Free(); Steal(o);
    }
    return *this;
  }
  Vector& operator=(real_t v) { std::fill(data_, data_ + size_, v); return *this; }
  Vector& operator=(const real_t* v) { std::copy(v, v + size_, data_); return *this; }

  virtual void UseDevice(bool) const {}
  virtual bool UseDevice() const { return false; }
  int Size() const { return size_; }
  int Capacity() const { return cap_; }
  void SetSize(int n) {
    if (n <= cap_) { size_ = n; return; }
    Free(); Alloc(n);
  }
  void SetSize(int n, const Vector&) { SetSize(n); }
  void Destroy() { Free(); }
  void SetData(real_t* d) { if (own_) delete[] data_; data_ = d; cap_ = size_; own_ = false; }
  void SetDataAndSize(real_t* d, int n) { Free(); data_ = d; size_ = cap_ = n; own_ = false; }
  void NewDataAndSize(real_t* d, int n) { SetDataAndSize(d, n); }
  void MakeRef(Vector& base, int off, int n) { Free(); data_ = base.data_ + off; size_ = cap_ = n; own_ = false; }
  void MakeRef(Vector& base, int off) { int n = size_; Free(); data_ = base.data_ + off; size_ = cap_ = n; own_ = false; }
  void MakeDataOwner() const { own_ = true; }
  bool OwnsData() const { return own_; }
  void StealData(real_t** p) { *p = data_; data_ = nullptr; size_ = cap_ = 0; own_ = true; }
  real_t* StealData() { real_t* p; StealData(&p); return p; }
  real_t* GetData() const { return data_; }
  operator real_t*() { return data_; }
  operator const real_t*() const { return data_; }
  real_t* begin() { return data_; }
  real_t* end() { return data_ + size_; }
  const real_t* begin() const { return data_; }
  const real_t* end() const { return data_ + size_; }
  real_t& Elem(int i) { return data_[i]; }
  const real_t& Elem(int i) const { return data_[i]; }
  real_t& operator()(int i) { return data_[i]; }
  const real_t& operator()(int i) const { return data_[i]; }
  real_t& operator[](int i) { return data_[i]; }
  const real_t& operator[](int i) const { return data_[i]; }
  real_t operator*(const real_t* v) const { real_t s = 0; for (int i = 0; i < size_; i++) s += data_[i] * v[i]; return s; }
  real_t operator*(const Vector& v) const { return (*this) * v.data_; }
  Vector& operator*=(real_t c) { for (int i = 0; i < size_; i++) data_[i] *= c; return *this; }
  Vector& operator*=(const Vector& v) { for (int i = 0; i < size_; i++) data_[i] *= v.data_[i]; return *this; }
  Vector& operator/=(real_t c) { for (int i = 0; i < size_; i++) data_[i] /= c; return *this; }
  Vector& operator/=(const Vector& v) { for (int i = 0; i < size_; i++) data_[i] /= v.data_[i]; return *this; }
  Vector& operator-=(real_t c) { for (int i = 0; i < size_; i++) data_[i] -= c; return *this; }
  Vector& operator+=(real_t c) { for (int i = 0; i < size_; i++) data_[i] += c; return *this; }
  Vector& operator-=(const Vector& v) { for (int i = 0; i < size_; i++) data_[i] -= v.data_[i]; return *this; }
  Vector& operator+=(const Vector& v) { for (int i = 0; i < size_; i++) data_[i] += v.data_[i]; return *this; }
  Vector& Add(real_t a, const Vector& v) { if (a != 0.0) for (int i = 0; i < size_; i++) data_[i] += a * v.data_[i]; return *this; }
  Vector& Set(real_t a, const Vector& v) { for (int i = 0; i < size_; i++) data_[i] = a * v.data_[i]; return *this; }
  void SetVector(const Vector& v, int off) { std::copy(v.data_, v.data_ + v.size_, data_ + off); }
  void AddSubVector(const Vector& v, int off) { for (int i = 0; i < v.size_; i++) data_[off + i] += v.data_[i]; }
  void Neg() { for (int i = 0; i < size_; i++) data_[i] = -data_[i]; }
  void Reciprocal() { for (int i = 0; i < size_; i++) data_[i] = 1.0 / data_[i]; }
  void Abs() { for (int i = 0; i < size_; i++) data_[i] = std::abs(data_[i]); }
  void Swap(Vector& o) { std::swap(data_, o.data_); std::swap(size_, o.size_); std::swap(cap_, o.cap_); std::swap(own_, o.own_); }
  void cross3D(const Vector& v, Vector& o) const {
    o.SetSize(3);
    o[0] = data_[1] * v[2] - data_[2] * v[1]; o[1] = data_[2] * v[0] - data_[0] * v[2]; o[2] = data_[0] * v[1] - data_[1] * v[0];
  }
  void GetSubVector(const Array<int>& d, Vector& e) const { e.SetSize(d.Size()); GetSubVector(d, e.data_); }
  void GetSubVector(const Array<int>& d, real_t* e) const { for (int i = 0; i < d.Size(); i++) e[i] = d[i] >= 0 ? data_[d[i]] : -data_[-1 - d[i]]; }
  void SetSubVector(const Array<int>& d, real_t v) { for (int i = 0; i < d.Size(); i++) if (d[i] >= 0) data_[d[i]] = v; else data_[-1 - d[i]] = -v; }
  void SetSubVector(const Array<int>& d, const Vector& e) { SetSubVector(d, e.data_); }
  void SetSubVector(const Array<int>& d, const real_t* e) { for (int i = 0; i < d.Size(); i++) if (d[i] >= 0) data_[d[i]] = e[i]; else data_[-1 - d[i]] = -e[i]; }
  void SetSubVector(const Array<int>& d, real_t* e) { SetSubVector(d, (const real_t*)e); }
  void AddElementVector(const Array<int>& d, const Vector& e) { AddElementVector(d, 1.0, e); }
  void AddElementVector(const Array<int>& d, real_t* e) { for (int i = 0; i < d.Size(); i++) if (d[i] >= 0) data_[d[i]] += e[i]; else data_[-1 - d[i]] -= e[i]; }
  void AddElementVector(const Array<int>& d, real_t a, const Vector& e) { for (int i = 0; i < d.Size(); i++) if (d[i] >= 0) data_[d[i]] += a * e[i]; else data_[-1 - d[i]] -= a * e[i]; }
  void SetSubVectorComplement(const Array<int>& d, real_t v) { std::vector<char> k(size_, 0); for (int i : d) k[i] = 1; for (int i = 0; i < size_; i++) if (!k[i]) data_[i] = v; }
  real_t Norml2() const { return std::sqrt((*this) * (*this)); }
  real_t Norml1() const { real_t s = 0; for (int i = 0; i < size_; i++) s += std::abs(data_[i]); return s; }
  real_t Normlinf() const { real_t s = 0; for (int i = 0; i < size_; i++) s = std::max(s, std::abs(data_[i])); return s; }
  real_t Max() const { if (!size_) return -infinity(); real_t m = data_[0]; for (int i = 1; i < size_; i++) m = std::max(m, data_[i]); return m; }
  real_t Min() const { if (!size_) return infinity(); real_t m = data_[0]; for (int i = 1; i < size_; i++) m = std::min(m, data_[i]); return m; }
  real_t Sum() const { real_t s = 0; for (int i = 0; i < size_; i++) s += data_[i]; return s; }
  real_t DistanceTo(const real_t* p) const { real_t s = 0; for (int i = 0; i < size_; i++) s += (data_[i] - p[i]) * (data_[i] - p[i]); return std::sqrt(s); }
  real_t DistanceTo(const Vector& p) const { return DistanceTo(p.data_); }
  real_t DistanceSquaredTo(const real_t* p) const { real_t d = DistanceTo(p); return d * d; }
  real_t DistanceSquaredTo(const Vector& p) const { return DistanceSquaredTo(p.data_); }
  int CheckFinite() const { int n = 0; for (int i = 0; i < size_; i++) if (!std::isfinite(data_[i])) n++; return n; }
  void Randomize(int seed = 0) { unsigned long s = (unsigned long)seed * 2654435761u + 12345u; for (int i = 0; i < size_; i++) { s = s * 6364136223846793005ul + 1442695040888963407ul; data_[i] = double(s >> 11) / double(1ul << 53); } }
  void Print(std::ostream& os = std::cout, int width = 8) const;
  void Save(std::ostream& os) const { Print(os, 1); }
  void Load(std::istream& in, int n) { SetSize(n); for (int i = 0; i < n; i++) in >> data_[i]; }
  void Load(std::istream& in) { int n; in >> n; Load(in, n); }
  const real_t* Read(bool = true) const { return data_; }
  const real_t* HostRead() const { return data_; }
  real_t* Write(bool = true) { return data_; }
  real_t* HostWrite() { return data_; }
  real_t* ReadWrite(bool = true) { return data_; }
  real_t* HostReadWrite() { return data_; }
  void SyncMemory(const Vector&) const {}
  void SyncAliasMemory(const Vector&) const {}

protected:
  void Alloc(int n) { data_ = n > 0 ? new real_t[n]() : nullptr; size_ = cap_ = n; own_ = true; Poison(); }
  void Poison() { for (int i = 0; i < size_; i++) data_[i] = std::numeric_limits<double>::quiet_NaN(); }
  void Steal(Vector& o) { data_ = o.data_; size_ = o.size_; cap_ = o.cap_; own_ = o.own_; o.data_ = nullptr; o.size_ = o.cap_ = 0; o.own_ = true; }
  void Free() { if (own_) delete[] data_; data_ = nullptr; size_ = cap_ = 0; own_ = true; }
  real_t* data_ = nullptr;
  int size_ = 0, cap_ = 0;
  mutable bool own_ = true;
};

inline void add(const Vector& a, const Vector& b, Vector& c) { c.SetSize(a.Size()); for (int i = 0; i < a.Size(); i++) c[i] = a[i] + b[i]; }
inline void add(const Vector& a, real_t s, const Vector& b, Vector& c) { c.SetSize(a.Size()); for (int i = 0; i < a.Size(); i++) c[i] = a[i] + s * b[i]; }
inline void add(real_t s, const Vector& a, const Vector& b, Vector& c) { c.SetSize(a.Size()); for (int i = 0; i < a.Size(); i++) c[i] = s * (a[i] + b[i]); }
inline void add(real_t s, const Vector& a, real_t t, const Vector& b, Vector& c) { c.SetSize(a.Size()); for (int i = 0; i < a.Size(); i++) c[i] = s * a[i] + t * b[i]; }
inline void subtract(const Vector& a, const Vector& b, Vector& c) { c.SetSize(a.Size()); for (int i = 0; i < a.Size(); i++) c[i] = a[i] - b[i]; }
inline void subtract(real_t s, const Vector& a, const Vector& b, Vector& c) { c.SetSize(a.Size()); for (int i = 0; i < a.Size(); i++) c[i] = s * (a[i] - b[i]); }
inline real_t InnerProduct(const Vector& a, const Vector& b) { return a * b; }
real_t InnerProduct(MPI_Comm comm, const Vector& a, const Vector& b);
inline real_t ParNormlp(const Vector& v, real_t, MPI_Comm c) { return std::sqrt(InnerProduct(c, v, v)); }

class DenseMatrix;

class Operator {
public:
  enum Type { ANY_TYPE, MFEM_SPARSEMAT, Hypre_ParCSR, PETSC_MATAIJ };
  explicit Operator(int s = 0) : height(s), width(s) {}
  Operator(int h, int w) : height(h), width(w) {}
  virtual ~Operator() = default;
  int Height() const { return height; }
  int NumRows() const { return height; }
  int Width() const { return width; }
  int NumCols() const { return width; }
  virtual void Mult(const Vector& x, Vector& y) const = 0;
  virtual void MultTranspose(const Vector&, Vector&) const { mfem_fail("MultTranspose not provided"); }
  virtual void AddMult(const Vector& x, Vector& y, const real_t a = 1.0) const { Vector z(y.Size()); Mult(x, z); y.Add(a, z); }
  virtual void AddMultTranspose(const Vector& x, Vector& y, const real_t a = 1.0) const { Vector z(y.Size()); MultTranspose(x, z); y.Add(a, z); }
  virtual Operator& GetGradient(const Vector&) const { mfem_fail("GetGradient not provided"); }
protected:
  int height, width;
};

class TimeDependentOperator : public Operator {
public:
  enum Type { EXPLICIT, IMPLICIT, HOMOGENEOUS };
  enum EvalMode { NORMAL, ADDITIVE_TERM_1, ADDITIVE_TERM_2 };
  explicit TimeDependentOperator(int n = 0, real_t t_ = 0.0, Type ty = EXPLICIT) : Operator(n), t(t_), type(ty) {}
  TimeDependentOperator(int h, int w, double t_ = 0.0, Type ty = EXPLICIT) : Operator(h, w), t(t_), type(ty) {}
  virtual real_t GetTime() const { return t; }
  virtual void SetTime(const real_t t_) { t = t_; }
  bool isExplicit() const { return type == EXPLICIT; }
  bool isImplicit() const { return type != EXPLICIT; }
  bool isHomogeneous() const { return type == HOMOGENEOUS; }
  void SetEvalMode(EvalMode) {}
  void Mult(const Vector&, Vector&) const override { mfem_fail("TimeDependentOperator::Mult not overridden"); }
  virtual void ImplicitSolve(const real_t, const Vector&, Vector&) { mfem_fail("ImplicitSolve not overridden"); }
protected:
  real_t t;
  Type type;
  EvalMode eval_mode = NORMAL;
};

class Solver : public Operator {
public:
  bool iterative_mode;
  explicit Solver(int s = 0, bool it = false) : Operator(s), iterative_mode(it) {}
  Solver(int h, int w, bool it = false) : Operator(h, w), iterative_mode(it) {}
  virtual void SetOperator(const Operator& op) = 0;
};

class Matrix : public Operator {
public:
  explicit Matrix(int s = 0) : Operator(s) {}
  Matrix(int h, int w) : Operator(h, w) {}
  virtual real_t& Elem(int i, int j) = 0;
  virtual const real_t& Elem(int i, int j) const = 0;
  virtual void Finalize(int = 1) {}
  virtual void Print(std::ostream& os = std::cout, int w = 4) const { (void)w; (void)os; }
};

class DenseMatrix : public Matrix {
public:
  DenseMatrix() : Matrix(0) {}
  DenseMatrix(const DenseMatrix&) = default;
  DenseMatrix(DenseMatrix&&) = default;
  explicit DenseMatrix(int s) : Matrix(s), d_((size_t)s * s, 0.0) {}
  DenseMatrix(int m, int n) : Matrix(m, n), d_((size_t)m * n, 0.0) {}
  DenseMatrix(const DenseMatrix& m, char) : Matrix(m.Width(), m.Height()), d_((size_t)m.Width() * m.Height()) { for (int i = 0; i < height; i++) for (int j = 0; j < width; j++) (*this)(i, j) = m(j, i); }
  DenseMatrix(std::initializer_list<std::initializer_list<real_t>> v);
  DenseMatrix& operator=(const DenseMatrix&) = default;
  DenseMatrix& operator=(DenseMatrix&&) = default;
  DenseMatrix& operator=(real_t c) { std::fill(d_.begin(), d_.end(), c); return *this; }
  void SetSize(int s) { SetSize(s, s); }
  void SetSize(int h, int w) { if (h != height || w != width) { height = h; width = w; d_.assign((size_t)h * w, 0.0); } }
  int Size() const { return Width(); }
  real_t* Data() const { return const_cast<real_t*>(d_.data()); }
  real_t* GetData() const { return const_cast<real_t*>(d_.data()); }
  int TotalSize() const { return width * height; }
  real_t& operator()(int i, int j) { return d_[i + (size_t)j * height]; }
  const real_t& operator()(int i, int j) const { return d_[i + (size_t)j * height]; }
  real_t& Elem(int i, int j) override { return (*this)(i, j); }
  const real_t& Elem(int i, int j) const override { return (*this)(i, j); }
  void Mult(const real_t* x, real_t* y) const { for (int i = 0; i < height; i++) { real_t s = 0; for (int j = 0; j < width; j++) s += (*this)(i, j) * x[j]; y[i] = s; } }
  void Mult(const Vector& x, Vector& y) const override { Mult(x.GetData(), y.GetData()); }
  void Mult(const real_t* x, Vector& y) const { Mult(x, y.GetData()); }
  void Mult(const Vector& x, real_t* y) const { Mult(x.GetData(), y); }
  void MultTranspose(const real_t* x, real_t* y) const { for (int j = 0; j < width; j++) { real_t s = 0; for (int i = 0; i < height; i++) s += (*this)(i, j) * x[i]; y[j] = s; } }
  void MultTranspose(const Vector& x, Vector& y) const override { MultTranspose(x.GetData(), y.GetData()); }
  void AddMult(const Vector& x, Vector& y, const real_t a = 1.0) const override { for (int i = 0; i < height; i++) { real_t s = 0; for (int j = 0; j < width; j++) s += (*this)(i, j) * x[j]; y[i] += a * s; } }
  void AddMultTranspose(const Vector& x, Vector& y, const real_t a = 1.0) const override { for (int j = 0; j < width; j++) { real_t s = 0; for (int i = 0; i < height; i++) s += (*this)(i, j) * x[i]; y[j] += a * s; } }
  real_t InnerProduct(const real_t* x, const real_t* y) const { real_t s = 0; for (int i = 0; i < height; i++) for (int j = 0; j < width; j++) s += y[i] * (*this)(i, j) * x[j]; return s; }
  DenseMatrix& operator+=(const DenseMatrix& m) { for (size_t i = 0; i < d_.size(); i++) d_[i] += m.d_[i]; return *this; }
  DenseMatrix& operator-=(const DenseMatrix& m) { for (size_t i = 0; i < d_.size(); i++) d_[i] -= m.d_[i]; return *this; }
  DenseMatrix& operator*=(real_t c) { for (auto& x : d_) x *= c; return *this; }
  void Add(const real_t c, const DenseMatrix& m) { for (size_t i = 0; i < d_.size(); i++) d_[i] += c * m.d_[i]; }
  void Set(real_t c, const DenseMatrix& m) { SetSize(m.height, m.width); for (size_t i = 0; i < d_.size(); i++) d_[i] = c * m.d_[i]; }
  void Neg() { for (auto& x : d_) x = -x; }
  void Transpose() { DenseMatrix t(*this, 't'); *this = t; }
  void Transpose(const DenseMatrix& m) { *this = DenseMatrix(m, 't'); }
  void Symmetrize() { for (int i = 0; i < height; i++) for (int j = 0; j < i; j++) { real_t a = 0.5 * ((*this)(i, j) + (*this)(j, i)); (*this)(i, j) = (*this)(j, i) = a; } }
  void Diag(real_t c, int n) { SetSize(n); *this = 0.0; for (int i = 0; i < n; i++) (*this)(i, i) = c; }
  real_t Trace() const { real_t s = 0; for (int i = 0; i < width; i++) s += (*this)(i, i); return s; }
  real_t Det() const;
  real_t Weight() const;
  void Invert();
  void GetRow(int r, Vector& row) const { row.SetSize(width); for (int j = 0; j < width; j++) row[j] = (*this)(r, j); }
  void GetColumn(int c, Vector& col) const { col.SetSize(height); for (int i = 0; i < height; i++) col[i] = (*this)(i, c); }
  real_t* GetColumn(int c) { return d_.data() + (size_t)c * height; }
  const real_t* GetColumn(int c) const { return d_.data() + (size_t)c * height; }
  void GetColumnReference(int c, Vector& col) { col.SetDataAndSize(d_.data() + (size_t)c * height, height); }
  void SetRow(int r, const real_t* v) { for (int j = 0; j < width; j++) (*this)(r, j) = v[j]; }
  void SetRow(int r, const Vector& v) { SetRow(r, v.GetData()); }
  void SetCol(int c, const real_t* v) { for (int i = 0; i < height; i++) (*this)(i, c) = v[i]; }
  void SetCol(int c, const Vector& v) { SetCol(c, v.GetData()); }
  void CopyMN(const DenseMatrix& A, int r, int c) { for (int j = 0; j < A.width; j++) for (int i = 0; i < A.height; i++) (*this)(r + i, c + j) = A(i, j); }
  void AddMatrix(const DenseMatrix& A, int r, int c) { AddMatrix(1.0, A, r, c); }
  void AddMatrix(real_t a, const DenseMatrix& A, int r, int c) { for (int j = 0; j < A.width; j++) for (int i = 0; i < A.height; i++) (*this)(r + i, c + j) += a * A(i, j); }
  void GetSubMatrix(const Array<int>& r, const Array<int>& c, DenseMatrix& A) const { A.SetSize(r.Size(), c.Size()); for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) A(i, j) = (*this)(r[i], c[j]); }
  real_t MaxMaxNorm() const { real_t m = 0; for (auto x : d_) m = std::max(m, std::abs(x)); return m; }
  real_t FNorm() const { real_t s = 0; for (auto x : d_) s += x * x; return std::sqrt(s); }
  void Print(std::ostream& os = std::cout, int w = 4) const override;
  void Threshold(real_t e) { for (auto& x : d_) if (std::abs(x) <= e) x = 0; }
private:
  std::vector<real_t> d_;
};

class DenseMatrixInverse : public Solver {
public:
  DenseMatrixInverse() = default;
  DenseMatrixInverse(const DenseMatrix& m, bool spd = false) { (void)spd; Factor(m); }
  DenseMatrixInverse(const DenseMatrix* m, bool spd = false) : src_(m) { (void)spd; height = m->Height(); width = m->Width(); }
  int Size() const { return Width(); }
  void Factor();
  void Factor(const DenseMatrix& m);
  void SetOperator(const Operator& op) override { Factor(dynamic_cast<const DenseMatrix&>(op)); }
  void Mult(const real_t* x, real_t* y) const;
  void Mult(const Vector& x, Vector& y) const override { if (y.Size() != height) y.SetSize(height); Mult(x.GetData(), y.GetData()); }
  void Mult(const DenseMatrix& B, DenseMatrix& X) const { X.SetSize(B.Height(), B.Width()); for (int j = 0; j < B.Width(); j++) Mult(B.GetColumn(j), X.GetColumn(j)); }
  void Mult(Vector& x) const { Vector b(x); Mult(b, x); }
  void GetInverseMatrix(DenseMatrix& Ainv) const;
private:
  const DenseMatrix* src_ = nullptr;
  DenseMatrix lu_;
  std::vector<int> piv_;
};

void Mult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a);
void AddMult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a);
void MultABt(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& ABt);
void MultAtB(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& AtB);
void AddMult_a_VVt(const real_t a, const Vector& v, DenseMatrix& VVt);
void MultVVt(const Vector& v, DenseMatrix& vvt);
void MultVWt(const Vector& v, const Vector& w, DenseMatrix& VWt);
void AddMultVWt(const Vector& v, const Vector& w, DenseMatrix& VWt);
void AddMult_a_VWt(const real_t a, const Vector& v, const Vector& w, DenseMatrix& VWt);
void AddMult_a_AAt(real_t a, const DenseMatrix& A, DenseMatrix& AAt);
void MultAAt(const DenseMatrix& A, DenseMatrix& AAt);
void CalcInverse(const DenseMatrix& a, DenseMatrix& inva);
void CalcAdjugate(const DenseMatrix& a, DenseMatrix& adja);
void CalcOrtho(const DenseMatrix& J, Vector& n);

class SparseMatrix : public Matrix {
public:
  SparseMatrix() : Matrix(0) { I_.assign(1, 0); fin_ = true; }
  explicit SparseMatrix(int nr, int nc = -1) : Matrix(nr, nc >= 0 ? nc : nr), rows_(nr) {}
  SparseMatrix(int* i, int* j, real_t* d, int m, int n) : SparseMatrix(i, j, d, m, n, true, true, false) {}
  SparseMatrix(int* i, int* j, real_t* d, int m, int n, bool ownij, bool owna, bool sorted);
  SparseMatrix(int nr, int nc, int) : SparseMatrix(nr, nc) {}
  SparseMatrix(const SparseMatrix&) = default;
  SparseMatrix(const SparseMatrix& m, bool) : SparseMatrix(m) {}
  SparseMatrix(SparseMatrix&&) = default;
  SparseMatrix& operator=(const SparseMatrix&) = default;
  SparseMatrix& operator=(SparseMatrix&&) = default;
  SparseMatrix& operator=(real_t a);
  void Swap(SparseMatrix& o) { std::swap(height, o.height); std::swap(width, o.width); std::swap(rows_, o.rows_); std::swap(I_, o.I_); std::swap(J_, o.J_); std::swap(A_, o.A_); std::swap(fin_, o.fin_); }
  void Clear() { *this = SparseMatrix(); }
  bool Empty() const { return height == 0; }
  bool Finalized() const { return fin_; }
  bool ColumnsAreSorted() const { return true; }
  void SortColumnIndices() {}
  int Size() const { return height; }
  int* GetI() { return I_.data(); }
  const int* GetI() const { return I_.data(); }
  int* GetJ() { return J_.data(); }
  const int* GetJ() const { return J_.data(); }
  real_t* GetData() { return A_.data(); }
  const real_t* GetData() const { return A_.data(); }
  const int* ReadI() const { return I_.data(); }
  const int* ReadJ() const { return J_.data(); }
  const real_t* ReadData() const { return A_.data(); }
  const int* HostReadI() const { return I_.data(); }
  const int* HostReadJ() const { return J_.data(); }
  const real_t* HostReadData() const { return A_.data(); }
  real_t* HostReadWriteData() { return A_.data(); }
  real_t* ReadWriteData() { return A_.data(); }
  int RowSize(int i) const { return fin_ ? I_[i + 1] - I_[i] : (int)rows_[i].size(); }
  int MaxRowSize() const { int m = 0; for (int i = 0; i < height; i++) m = std::max(m, RowSize(i)); return m; }
  int* GetRowColumns(int r) { Need(); return J_.data() + I_[r]; }
  const int* GetRowColumns(int r) const { Need(); return J_.data() + I_[r]; }
  real_t* GetRowEntries(int r) { Need(); return A_.data() + I_[r]; }
  const real_t* GetRowEntries(int r) const { Need(); return A_.data() + I_[r]; }
  void SetWidth(int w = -1) { if (w >= 0) width = w; }
  int ActualWidth() const { int m = -1; for (int i = 0; i < height; i++) ForRow(i, [&](int c, real_t) { m = std::max(m, c); }); return m + 1; }
  real_t& Elem(int i, int j) override { return (*this)(i, j); }
  const real_t& Elem(int i, int j) const override { return (*this)(i, j); }
  real_t& operator()(int i, int j);
  const real_t& operator()(int i, int j) const;
  void GetDiag(Vector& d) const { d.SetSize(height); for (int i = 0; i < height; i++) d[i] = std::as_const(*this)(i, i); }
  DenseMatrix* ToDenseMatrix() const { auto* m = new DenseMatrix; ToDenseMatrix(*m); return m; }
  void ToDenseMatrix(DenseMatrix& m) const { m.SetSize(height, width); m = 0.0; for (int i = 0; i < height; i++) ForRow(i, [&](int c, real_t v) { m(i, c) += v; }); }
  void Mult(const Vector& x, Vector& y) const override { if (y.Size() != height) y.SetSize(height); y = 0.0; AddMult(x, y); }
  void AddMult(const Vector& x, Vector& y, const real_t a = 1.0) const override { for (int i = 0; i < height; i++) { real_t s = 0; ForRow(i, [&](int c, real_t v) { s += v * x[c]; }); y[i] += a * s; } }
  void MultTranspose(const Vector& x, Vector& y) const override { y = 0.0; AddMultTranspose(x, y); }
  void AddMultTranspose(const Vector& x, Vector& y, const real_t a = 1.0) const override { for (int i = 0; i < height; i++) ForRow(i, [&](int c, real_t v) { y[c] += a * v * x[i]; }); }
  real_t InnerProduct(const Vector& x, const Vector& y) const { Vector z(height); Mult(x, z); return z * y; }
  void Set(const int i, const int j, const real_t v) { Ref(i, j) = v; }
  void Add(const int i, const int j, const real_t v) { Ref(i, j) += v; }
  void Add(const SparseMatrix& B) { for (int i = 0; i < B.height; i++) B.ForRow(i, [&](int c, real_t v) { Ref(i, c) += v; }); }
  void AddSubMatrix(const Array<int>& rows, const Array<int>& cols, const DenseMatrix& sm, int skip_zeros = 1);
  void SetSubMatrix(const Array<int>& rows, const Array<int>& cols, const DenseMatrix& sm, int skip_zeros = 1);
  void GetSubMatrix(const Array<int>& rows, const Array<int>& cols, DenseMatrix& sm) const { sm.SetSize(rows.Size(), cols.Size()); for (int i = 0; i < rows.Size(); i++) for (int j = 0; j < cols.Size(); j++) sm(i, j) = std::as_const(*this)(rows[i], cols[j]); }
  void SetRow(const int r, const Array<int>& cols, const Vector& v);
  void AddRow(const int r, const Array<int>& cols, const Vector& v) { for (int i = 0; i < cols.Size(); i++) Ref(r, cols[i]) += v[i]; }
  int GetRow(const int r, Array<int>& cols, Vector& v) const;
  void Finalize(int skip_zeros = 1) override;
  void Finalize(int skip_zeros, bool) { Finalize(skip_zeros); }
  void Threshold(real_t tol, bool fix_empty_rows = false);
  int NumNonZeroElems() const { int n = 0; for (int i = 0; i < height; i++) n += RowSize(i); return n; }
  real_t MaxNorm() const { real_t m = 0; for (int i = 0; i < height; i++) ForRow(i, [&](int, real_t v) { m = std::max(m, std::abs(v)); }); return m; }
  void ScaleRow(int r, real_t a) { ForRowM(r, [&](int, real_t& v) { v *= a; }); }
  SparseMatrix& operator*=(real_t a) { for (int i = 0; i < height; i++) ScaleRow(i, a); return *this; }
  SparseMatrix& operator+=(const SparseMatrix& B) { Add(B); return *this; }
  void Print(std::ostream& os = std::cout, int width_ = 4) const override;
  void PrintCSR2(std::ostream& os) const;
  void PrintMatlab(std::ostream& os = std::cout) const;
  void PrintCSR(std::ostream& os) const;
  template <class F> void ForRow(int i, F f) const { if (fin_) for (int k = I_[i]; k < I_[i + 1]; k++) f(J_[k], A_[k]); else for (auto& p : rows_[i]) f(p.first, p.second); }
  template <class F> void ForRowM(int i, F f) { if (fin_) for (int k = I_[i]; k < I_[i + 1]; k++) f(J_[k], A_[k]); else for (auto& p : rows_[i]) f(p.first, p.second); }
private:
  void Need() const { if (!fin_) mfem_fail("SparseMatrix: row access needs a finalized matrix"); }
  real_t& Ref(int i, int j);
  std::vector<std::map<int, real_t>> rows_;
  std::vector<int> I_, J_;
  std::vector<real_t> A_;
  bool fin_ = false;
};

SparseMatrix* Mult(const SparseMatrix& A, const SparseMatrix& B, SparseMatrix* O = nullptr);
SparseMatrix* Transpose(const SparseMatrix& A);
SparseMatrix* Add(const SparseMatrix& A, const SparseMatrix& B);
SparseMatrix* Add(real_t a, const SparseMatrix& A, real_t b, const SparseMatrix& B);

class Table {
public:
  Table() = default;
  explicit Table(int n) : r_(n) {}
  int Size() const { return (int)r_.size(); }
  int Width() const { int m = -1; for (auto& v : r_) for (int x : v) m = std::max(m, x); return m + 1; }
  int Size_of_connections() const { int n = 0; for (auto& v : r_) n += (int)v.size(); return n; }
  int RowSize(int i) const { return (int)r_[i].size(); }
  void GetRow(int i, Array<int>& row) const { row.SetSize((int)r_[i].size()); for (int k = 0; k < row.Size(); k++) row[k] = r_[i][k]; }
  const int* GetRow(int i) const { return r_[i].data(); }
  int* GetRow(int i) { return r_[i].data(); }
  void Finalize() {}
  int operator()(int i, int j) const { auto& v = r_[i]; for (size_t k = 0; k < v.size(); k++) if (v[k] == j) return int(k); return -1; }
  int Push(int i, int j) { r_[i].push_back(j); return (int)r_[i].size() - 1; }
  std::vector<std::vector<int>>& Rows() { return r_; }
  const std::vector<std::vector<int>>& Rows() const { return r_; }
private:
  std::vector<std::vector<int>> r_;
};

class IterativeSolver : public Solver {
public:
  IterativeSolver() : Solver(0, true) {}
  explicit IterativeSolver(MPI_Comm c) : Solver(0, true), comm(c) {}
  struct PrintLevel { bool errors, warnings, iterations, summary, first_and_last; };
  void SetRelTol(real_t r) { rel_tol = r; }
  void SetAbsTol(real_t a) { abs_tol = a; }
  void SetMaxIter(int m) { max_iter = m; }
  void SetPrintLevel(int) {}
  void SetPrintLevel(PrintLevel) {}
  int GetNumIterations() const { return final_iter; }
  bool GetConverged() const { return converged; }
  real_t GetFinalNorm() const { return final_norm; }
  virtual void SetPreconditioner(Solver& pr) { prec = &pr; }
  void SetOperator(const Operator& op) override { oper = &op; height = op.Height(); width = op.Width(); }
protected:
  MPI_Comm comm = MPI_COMM_SELF;
  const Operator* oper = nullptr;
  Solver* prec = nullptr;
  real_t rel_tol = 0, abs_tol = 0;
  int max_iter = 10;
  mutable int final_iter = 0;
  mutable bool converged = false;
  mutable real_t final_norm = 0;
};

class GMRESSolver : public IterativeSolver {
public:
  GMRESSolver() = default;
  explicit GMRESSolver(MPI_Comm c) : IterativeSolver(c) {}
  void SetKDim(int d) { m = d; }
  void Mult(const Vector& b, Vector& x) const override;
private:
  int m = 50;
};
class FGMRESSolver : public GMRESSolver { public: using GMRESSolver::GMRESSolver; };
class BiCGSTABSolver : public GMRESSolver { public: using GMRESSolver::GMRESSolver; };

// Lets a driver observe every time step an integrator takes, before and after.
struct StepWatch {
  using Hook = std::function<void(const Vector& x, real_t t0, real_t dt, real_t t1)>;
  static Hook& hook() { static Hook h; return h; }
  static Hook& start() { static Hook h; return h; }
  // the operator of the step being observed
  static TimeDependentOperator*& op() { static thread_local TimeDependentOperator* f; return f; }
  StepWatch(const Vector& x_, const real_t& t_, const real_t& dt_, TimeDependentOperator* f_) : x(x_), t(t_), t0(t_), dt(dt_), f(f_) {
    if (start()) { op() = f; start()(x, t0, dt, t0); }
  }
  ~StepWatch() { if (hook()) { op() = f; hook()(x, t0, dt, t); } }
  const Vector& x;
  const real_t& t;
  real_t t0, dt;
  TimeDependentOperator* f;
};
class ODESolver {
public:
  ODESolver() = default;
  virtual ~ODESolver() = default;
  virtual void Init(TimeDependentOperator& op) { f = &op; }
  virtual void Step(Vector& x, real_t& t, real_t& dt) = 0;
  virtual void Run(Vector& x, real_t& t, real_t& dt, real_t tf) { while (t < tf) Step(x, t, dt); }
protected:
  TimeDependentOperator* f = nullptr;
};
class ForwardEulerSolver : public ODESolver { public: void Init(TimeDependentOperator&) override; void Step(Vector&, real_t&, real_t&) override; private: Vector dxdt; };
class RK2Solver : public ODESolver { public: explicit RK2Solver(real_t a_ = 2. / 3.) : a(a_) {} void Init(TimeDependentOperator&) override; void Step(Vector&, real_t&, real_t&) override; private: real_t a; Vector dxdt, x1; };
class RK3SSPSolver : public ODESolver { public: void Init(TimeDependentOperator&) override; void Step(Vector&, real_t&, real_t&) override; private: Vector y, k; };
class RK4Solver : public ODESolver { public: void Init(TimeDependentOperator&) override; void Step(Vector&, real_t&, real_t&) override; private: Vector y, k, z; };
class ExplicitRKSolver : public ODESolver {
public:
  ExplicitRKSolver(int s_, const real_t* a_, const real_t* b_, const real_t* c_) : s(s_), a(a_), b(b_), c(c_), k(s_) {}
  void Init(TimeDependentOperator&) override;
  void Step(Vector&, real_t&, real_t&) override;
private:
  int s; const real_t *a, *b, *c; Vector y; std::vector<Vector> k;
};
class RK6Solver : public ExplicitRKSolver { public: RK6Solver(); };
class RK8Solver : public ExplicitRKSolver { public: RK8Solver(); };
class BackwardEulerSolver : public ODESolver { public: void Init(TimeDependentOperator&) override; void Step(Vector&, real_t&, real_t&) override; private: Vector k; };
class ImplicitMidpointSolver : public ODESolver { public: void Init(TimeDependentOperator&) override; void Step(Vector&, real_t&, real_t&) override; private: Vector k; };
class TrapezoidalRuleSolver : public ODESolver { public: void Init(TimeDependentOperator&) override; void Step(Vector&, real_t&, real_t&) override; private: Vector k, y; };
class SDIRK23Solver : public ODESolver { public: explicit SDIRK23Solver(int gamma_opt = 1); void Init(TimeDependentOperator&) override; void Step(Vector&, real_t&, real_t&) override; private: real_t gamma; Vector k, y; };
class SDIRK33Solver : public ODESolver { public: void Init(TimeDependentOperator&) override; void Step(Vector&, real_t&, real_t&) override; private: Vector k, y, z; };
class SDIRK34Solver : public ODESolver { public: void Init(TimeDependentOperator&) override; void Step(Vector&, real_t&, real_t&) override; private: Vector k, y, z; };

class StopWatch {
public:
  void Clear() { acc_ = 0; run_ = false; }
  void Restart() { Clear(); Start(); }
  void Start() { if (!run_) { t0_ = Now(); run_ = true; } }
  void Stop() { if (run_) { acc_ += Now() - t0_; run_ = false; } }
  real_t RealTime() { return acc_ + (run_ ? Now() - t0_ : 0); }
  real_t UserTime() { return RealTime(); }
  real_t SystTime() { return 0; }
private:
  static double Now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  double acc_ = 0, t0_ = 0;
  bool run_ = false;
};

template <typename F> inline void forall(int n, F&& body) { for (int i = 0; i < n; i++) body(i); }
#define MFEM_FORALL(i, N, ...) for (int i = 0; i < (N); i++) { __VA_ARGS__ }
#define MFEM_SHARED
#define MFEM_SYNC_THREAD
#define MFEM_DEVICE_SYNC
inline int cudaDeviceSynchronize() { return 0; }

struct Backend { enum Id : unsigned long { CPU = 1, OMP = 2, CUDA = 4, HIP = 8, DEVICE_MASK = 12, CUDA_MASK = 4, OMP_MASK = 2 }; };

class Device {
public:
  Device() = default;
  explicit Device(const std::string& d, const int = 0) { Configure(d); }
  void Configure(const std::string& d, const int = 0);
  void Print(std::ostream& os = std::cout) { os << "Device configuration: " << name_ << std::endl; }
  static bool Allows(unsigned long) { return false; }
  static bool IsEnabled() { return false; }
  static bool IsConfigured() { return true; }
  static void SetGPUAwareMPI(bool = true) {}
  static bool GetGPUAwareMPI() { return false; }
private:
  std::string name_ = "cpu";
};

class Mpi {
public:
  static void Init(int& c, char**& v) { MPI_Init(&c, &v); }
  static void Init() { MPI_Init(nullptr, nullptr); }
  static void Finalize() { MPI_Finalize(); }
  static bool IsInitialized() { int f; MPI_Initialized(&f); return f; }
  static bool IsFinalized() { int f; MPI_Finalized(&f); return f; }
  static int WorldRank() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
  static int WorldSize() { int s; MPI_Comm_size(MPI_COMM_WORLD, &s); return s; }
  static bool Root() { return WorldRank() == 0; }
};

class Hypre { public: static void Init() {} static void Finalize() {} };

using HYPRE_BigInt = int;
template <typename T> struct MPITypeMap;
template <> struct MPITypeMap<double> { static constexpr int mpi_type = MPI_DOUBLE; };
template <> struct MPITypeMap<int> { static constexpr int mpi_type = MPI_INT; };

std::string to_padded_string(int i, int digits);
inline std::string to_string(int i) { return std::to_string(i); }
inline int to_int(const std::string& s) { return std::stoi(s); }
inline void skip_comment_lines(std::istream& is, const char c) { while (true) { is >> std::ws; if (is.peek() != c) break; is.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); } }
inline void filter_dos(std::string& l) { if (!l.empty() && *l.rbegin() == '\r') l.resize(l.size() - 1); }

}  // namespace mfem
