// working definitions of the few library calls the demonstrations reach
#include <mfem.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>

extern "C" {
const MPI_Comm MPI_COMM_WORLD_ = 0, MPI_COMM_SELF_ = 1, MPI_COMM_NULL_ = -1;
const MPI_Datatype MPI_INT = 4, MPI_DOUBLE = 8, MPI_FLOAT = 104, MPI_CHAR = 1, MPI_BYTE = 1, MPI_LONG = 8, MPI_LONG_LONG = 8, MPI_UNSIGNED = 4, MPI_UNSIGNED_LONG = 8, MPI_C_BOOL = 1, MPI_CXX_BOOL = 1, MPI_INT64_T = 8, MPI_UINT64_T = 8, MPI_LONG_LONG_INT = 8;
const MPI_Op MPI_SUM = 0, MPI_MIN = 1, MPI_MAX = 2, MPI_LAND = 3, MPI_LOR = 4, MPI_BAND = 5, MPI_BOR = 6, MPI_PROD = 7;
int kit_rank = 0, kit_size = 1;
int MPI_Comm_rank(MPI_Comm, int* r) { *r = kit_rank; return 0; }
int MPI_Comm_size(MPI_Comm, int* s) { *s = kit_size; return 0; }
int MPI_Barrier(MPI_Comm) { return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
double MPI_Wtime(void) { return 0.0; }
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { return 0; }
int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { if (a != MPI_IN_PLACE) memcpy(b, a, (size_t)n * (t > 100 ? t - 100 : t)); return 0; }
int MPI_Reduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op, int, MPI_Comm) { if (a != MPI_IN_PLACE) memcpy(b, a, (size_t)n * (t > 100 ? t - 100 : t)); return 0; }
double gsl_sf_bessel_jl(int l, double x) { return std::sqrt(M_PI / 2 / x) * std::cyl_bessel_j(l + 0.5, x); }
double gsl_sf_legendre_sphPlm(int l, int m, double x) { return std::sph_legendre(l, m, std::acos(x)); }
}

namespace mfem {

std::ostream& out = std::cout;
std::ostream& err = std::cerr;
void mfem_error(const char* m) { std::fprintf(stderr, "mfem error %s\n", m ? m : ""); std::abort(); }
void mfem_warning(const char*) {}

// ------------------------------------------------------------------ Vector
Vector::Vector() {}
Vector::Vector(int s) { SetSize(s); }
Vector::Vector(const Vector& v) { SetSize(v.n_); std::copy(v.d_, v.d_ + n_, d_); }
Vector::Vector(Vector&& v) { d_ = v.d_; n_ = v.n_; own_ = v.own_; v.d_ = nullptr; v.n_ = 0; v.own_ = false; }
Vector::Vector(double* d, int s) { d_ = d; n_ = s; }
Vector::Vector(Vector& b, int o, int s) { d_ = b.d_ + o; n_ = s; }
Vector::Vector(std::initializer_list<double> l) { SetSize((int)l.size()); std::copy(l.begin(), l.end(), d_); }
template <int N> Vector::Vector(const double (&v)[N]) { SetSize(N); std::copy(v, v + N, d_); }
template Vector::Vector(const double (&)[1]);
template Vector::Vector(const double (&)[2]);
template Vector::Vector(const double (&)[3]);
Vector::~Vector() { if (own_) delete[] d_; }
void Vector::UseDevice(bool) const {}
bool Vector::UseDevice() const { return false; }
void Vector::SetSize(int s) { if (own_) { if (s <= n_) { n_ = s; return; } delete[] d_; } d_ = new double[s + 1]; for (int i = 0; i <= s; i++) d_[i] = 7.25e77; n_ = s; own_ = true; }
void Vector::SetDataAndSize(double* d, int s) { if (own_) delete[] d_; d_ = d; n_ = s; own_ = false; }
void Vector::SetData(double* d) { if (own_) delete[] d_; d_ = d; own_ = false; }
void Vector::MakeRef(Vector& b, int o, int s) { SetDataAndSize(b.d_ + o, s); }
void Vector::MakeRef(Vector& b, int o) { SetDataAndSize(b.d_ + o, n_); }
void Vector::Destroy() { if (own_) delete[] d_; d_ = nullptr; n_ = 0; own_ = false; }
int Vector::Size() const { return n_; }
double* Vector::GetData() const { return d_; }
Vector::operator double*() { return d_; }
Vector::operator const double*() const { return d_; }
double* Vector::begin() { return d_; }
double* Vector::end() { return d_ + n_; }
const double* Vector::begin() const { return d_; }
const double* Vector::end() const { return d_ + n_; }
double& Vector::Elem(int i) { return d_[i]; }
const double& Vector::Elem(int i) const { return d_[i]; }
double& Vector::operator()(int i) { return d_[i]; }
const double& Vector::operator()(int i) const { return d_[i]; }
double& Vector::operator[](int i) { return d_[i]; }
const double& Vector::operator[](int i) const { return d_[i]; }
double Vector::operator*(const Vector& v) const { double s = 0; for (int i = 0; i < n_; i++) s += d_[i] * v.d_[i]; return s; }
double Vector::operator*(const double* v) const { double s = 0; for (int i = 0; i < n_; i++) s += d_[i] * v[i]; return s; }
Vector& Vector::operator=(const double* v) { for (int i = 0; i < n_; i++) d_[i] = v[i]; return *this; }
Vector& Vector::operator=(const Vector& v) { if (this != &v) { SetSize(v.n_); std::copy(v.d_, v.d_ + n_, d_); } return *this; }
Vector& Vector::operator=(Vector&& v) { std::swap(d_, v.d_); std::swap(n_, v.n_); std::swap(own_, v.own_); return *this; }
Vector& Vector::operator=(double c) { for (int i = 0; i < n_; i++) d_[i] = c; return *this; }
Vector& Vector::operator*=(double c) { for (int i = 0; i < n_; i++) d_[i] *= c; return *this; }
Vector& Vector::operator/=(double c) { for (int i = 0; i < n_; i++) d_[i] /= c; return *this; }
Vector& Vector::operator-=(double c) { for (int i = 0; i < n_; i++) d_[i] -= c; return *this; }
Vector& Vector::operator+=(double c) { for (int i = 0; i < n_; i++) d_[i] += c; return *this; }
Vector& Vector::operator-=(const Vector& v) { for (int i = 0; i < n_; i++) d_[i] -= v.d_[i]; return *this; }
Vector& Vector::operator+=(const Vector& v) { for (int i = 0; i < n_; i++) d_[i] += v.d_[i]; return *this; }
Vector& Vector::Add(const double a, const Vector& v) { for (int i = 0; i < n_; i++) d_[i] += a * v.d_[i]; return *this; }
Vector& Vector::Set(const double a, const Vector& v) { for (int i = 0; i < n_; i++) d_[i] = a * v.d_[i]; return *this; }
void Vector::Neg() { for (int i = 0; i < n_; i++) d_[i] = -d_[i]; }
double Vector::Norml2() const { return std::sqrt(*this * *this); }
double Vector::Max() const { double m = d_[0]; for (int i = 1; i < n_; i++) m = std::max(m, d_[i]); return m; }
double Vector::Min() const { double m = d_[0]; for (int i = 1; i < n_; i++) m = std::min(m, d_[i]); return m; }
double Vector::Sum() const { double m = 0; for (int i = 0; i < n_; i++) m += d_[i]; return m; }
double Vector::DistanceTo(const Vector& v) const { double s = 0; for (int i = 0; i < n_; i++) s += (d_[i] - v.d_[i]) * (d_[i] - v.d_[i]); return std::sqrt(s); }
const double* Vector::Read(bool) const { return d_; }
const double* Vector::HostRead() const { return d_; }
double* Vector::HostWrite() { return d_; }
double* Vector::HostReadWrite() { return d_; }
void add(const Vector& a, const Vector& b, Vector& c) { for (int i = 0; i < c.n_; i++) c.d_[i] = a.d_[i] + b.d_[i]; }
void subtract(const Vector& a, const Vector& b, Vector& c) { for (int i = 0; i < c.n_; i++) c.d_[i] = a.d_[i] - b.d_[i]; }

// ------------------------------------------------------------------- Array
template <class T> Array<T>::Array() {}
template <class T> Array<T>::Array(int s) { SetSize(s); }
template <class T> Array<T>::Array(T* p, int s) { d_ = p; n_ = s; }
template <class T> Array<T>::Array(const Array& a) { SetSize(a.n_); std::copy(a.d_, a.d_ + n_, d_); }
template <class T> Array<T>::Array(Array&& a) { d_ = a.d_; n_ = a.n_; own_ = a.own_; a.d_ = nullptr; a.n_ = 0; a.own_ = false; }
template <class T> Array<T>::Array(std::initializer_list<T> l) { SetSize((int)l.size()); std::copy(l.begin(), l.end(), d_); }
template <class T> Array<T>::~Array() { if (own_) delete[] d_; }
template <class T> Array<T>& Array<T>::operator=(const Array& a) { if (this != &a) { SetSize(a.n_); std::copy(a.d_, a.d_ + n_, d_); } return *this; }
template <class T> Array<T>& Array<T>::operator=(Array&& a) { std::swap(d_, a.d_); std::swap(n_, a.n_); std::swap(own_, a.own_); return *this; }
template <class T> Array<T>& Array<T>::operator=(const T& c) { for (int i = 0; i < n_; i++) d_[i] = c; return *this; }
template <class T> Array<T>::operator T*() { return d_; }
template <class T> Array<T>::operator const T*() const { return d_; }
template <class T> T* Array<T>::GetData() { return d_; }
template <class T> const T* Array<T>::GetData() const { return d_; }
template <class T> int Array<T>::Size() const { return n_; }
template <class T> void Array<T>::SetSize(int s) { T* o = d_; int m = std::min(n_, s); T* p = new T[s + 1](); for (int i = 0; i < m; i++) p[i] = o[i]; if (own_) delete[] o; d_ = p; n_ = s; own_ = true; }
template <class T> T& Array<T>::operator[](int i) { return d_[i]; }
template <class T> const T& Array<T>::operator[](int i) const { return d_[i]; }
template <class T> int Array<T>::Append(const T& e) { SetSize(n_ + 1); d_[n_ - 1] = e; return n_; }
template <class T> int Array<T>::Append(const Array<T>& a) { for (int i = 0; i < a.n_; i++) Append(a.d_[i]); return n_; }
template <class T> int Array<T>::Find(const T& e) const { for (int i = 0; i < n_; i++) if (d_[i] == e) return i; return -1; }
template <class T> T Array<T>::Max() const { T m = d_[0]; for (int i = 1; i < n_; i++) m = std::max(m, d_[i]); return m; }
template <class T> T Array<T>::Min() const { T m = d_[0]; for (int i = 1; i < n_; i++) m = std::min(m, d_[i]); return m; }
template <class T> T Array<T>::Sum() const { T m = T(); for (int i = 0; i < n_; i++) m += d_[i]; return m; }
template <class T> T& Array<T>::Last() { return d_[n_ - 1]; }
template <class T> const T& Array<T>::Last() const { return d_[n_ - 1]; }
template <class T> T* Array<T>::begin() { return d_; }
template <class T> T* Array<T>::end() { return d_ + n_; }
template <class T> const T* Array<T>::begin() const { return d_; }
template <class T> const T* Array<T>::end() const { return d_ + n_; }
template <class T> void Array<T>::DeleteAll() { if (own_) delete[] d_; d_ = nullptr; n_ = 0; own_ = false; }
template <class T> void Array<T>::Sort() { std::sort(d_, d_ + n_); }
#define M(T) \
  template Array<T>::Array(); template Array<T>::Array(int); template Array<T>::Array(T*, int); template Array<T>::Array(const Array&); template Array<T>::Array(Array&&); \
  template Array<T>::Array(std::initializer_list<T>); template Array<T>::~Array(); template Array<T>& Array<T>::operator=(const Array&); template Array<T>& Array<T>::operator=(Array&&); \
  template Array<T>& Array<T>::operator=(const T&); template Array<T>::operator T*(); template Array<T>::operator const T*() const; template T* Array<T>::GetData(); template const T* Array<T>::GetData() const; \
  template int Array<T>::Size() const; template void Array<T>::SetSize(int); template T& Array<T>::operator[](int); template const T& Array<T>::operator[](int) const; \
  template int Array<T>::Append(const T&); template int Array<T>::Append(const Array<T>&); template int Array<T>::Find(const T&) const; template T Array<T>::Max() const; template T Array<T>::Min() const; template T Array<T>::Sum() const; \
  template T& Array<T>::Last(); template const T& Array<T>::Last() const; template T* Array<T>::begin(); template T* Array<T>::end(); template const T* Array<T>::begin() const; template const T* Array<T>::end() const; \
  template void Array<T>::DeleteAll(); template void Array<T>::Sort();
M(int)
M(double)

// ------------------------------------------------------------- DenseMatrix
Operator::Operator(int s) { height = width = s; }
Operator::Operator(int h, int w) { height = h; width = w; }
Operator::~Operator() {}
int Operator::Height() const { return height; }
int Operator::Width() const { return width; }
Matrix::Matrix(int s) : Operator(s, s) {}
Matrix::Matrix(int h, int w) : Operator(h, w) {}
DenseMatrix::DenseMatrix() : Matrix(0) {}
DenseMatrix::DenseMatrix(const DenseMatrix& m) : Matrix(0), a_(m.a_), h_(m.h_), w_(m.w_) { height = h_; width = w_; }
DenseMatrix::DenseMatrix(int s) : Matrix(0) { SetSize(s, s); }
DenseMatrix::DenseMatrix(int m, int n) : Matrix(0) { SetSize(m, n); }
DenseMatrix& DenseMatrix::operator=(const DenseMatrix& m) { a_ = m.a_; h_ = m.h_; w_ = m.w_; height = h_; width = w_; return *this; }
DenseMatrix& DenseMatrix::operator=(double c) { for (auto& x : a_) x = c; return *this; }
void DenseMatrix::SetSize(int s) { SetSize(s, s); }
void DenseMatrix::SetSize(int m, int n) { h_ = m; w_ = n; height = m; width = n; a_.assign((size_t)m * n, 0.0); }
double& DenseMatrix::operator()(int i, int j) { return a_[i + (size_t)j * h_]; }
const double& DenseMatrix::operator()(int i, int j) const { return a_[i + (size_t)j * h_]; }
double& DenseMatrix::Elem(int i, int j) { return a_[i + (size_t)j * h_]; }
const double& DenseMatrix::Elem(int i, int j) const { return a_[i + (size_t)j * h_]; }
double* DenseMatrix::GetData() const { return const_cast<double*>(a_.data()); }
double* DenseMatrix::Data() const { return const_cast<double*>(a_.data()); }
void DenseMatrix::Mult(const Vector& x, Vector& y) const { for (int i = 0; i < h_; i++) { double s = 0; for (int j = 0; j < w_; j++) s += (*this)(i, j) * x[j]; y[i] = s; } }
void DenseMatrix::MultTranspose(const Vector& x, Vector& y) const { for (int i = 0; i < w_; i++) { double s = 0; for (int j = 0; j < h_; j++) s += (*this)(j, i) * x[j]; y[i] = s; } }
}
