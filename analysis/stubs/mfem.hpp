// Declarations of the part of the MFEM API (and a margin around it) that the
// analysed sources use.  Only declarations: this header exists so that clang
// can resolve names, overloads and types in the sources under analysis.
#pragma once
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <algorithm>
#include <numeric>
#include <optional>
#include <mpi.h>

#define MFEM_USE_MPI
#define MFEM_HOST_DEVICE
#define MFEM_ASSERT(x, msg) do { (void)sizeof(x); } while (0)
#define MFEM_VERIFY(x, msg) do { if (!(x)) { ::mfem::mfem_error(""); } } while (0)
#define MFEM_ABORT(msg) ::mfem::mfem_error("")
#define MFEM_WARNING(msg) ::mfem::mfem_warning("")
#define MFEM_CONTRACT_VAR(x) (void)(x)
#define MFEM_PERF_FUNCTION
#define MFEM_FORALL(i, N, ...) ::mfem::forall(N, [=] (int i) {__VA_ARGS__})
#define mfem_error_stub

typedef int HYPRE_BigInt;
typedef int HYPRE_Int;

namespace mfem {

using real_t = double;
using namespace std::string_literals;

[[noreturn]] void mfem_error(const char* msg = nullptr);
void mfem_warning(const char* msg = nullptr);
extern std::ostream& out;
extern std::ostream& err;

enum class MemoryType { HOST, HOST_32, HOST_64, MANAGED, DEVICE, DEFAULT };
enum class MemoryClass { HOST, DEVICE, MANAGED };

template <class T> class Memory {
public:
    Memory();
    explicit Memory(int size);
    Memory(T* ptr, int size, bool own);
    int Capacity() const;
    operator T*();
    operator const T*() const;
    T& operator[](int i);
    const T& operator[](int i) const;
    T* Write(MemoryClass, int);
    const T* Read(MemoryClass, int) const;
    void Delete();
    void UseDevice(bool) const;
    bool UseDevice() const;
    bool Empty() const;
    void SyncAlias(const Memory&, int) const;
};

namespace Backend {
enum Id : unsigned long { CPU = 1, OMP = 2, CUDA = 4, HIP = 8, DEVICE_MASK = 12, CUDA_MASK = 4, HIP_MASK = 8 };
}
class Device {
public:
    Device();
    Device(const std::string& device, int dev = 0);
    void Configure(const std::string& device, int dev = 0);
    void Print(std::ostream& os = mfem::out);
    static bool Allows(unsigned long);
    static bool IsEnabled();
    static void Synchronize();
    static void SetGPUAwareMPI(bool = true);
    static bool GetGPUAwareMPI();
    static MemoryClass GetDeviceMemoryClass();
    static MemoryClass GetMemoryClass();
    static MemoryType GetDeviceMemoryType();
    static MemoryType GetMemoryType();
};

template <typename F> void forall(int N, F&& body);

template <class T> class Array {
public:
    Array();
    explicit Array(int asize);
    Array(int asize, MemoryType);
    Array(T* data, int asize);
    Array(const Array&);
    Array(Array&&);
    Array(std::initializer_list<T>);
    template <int N> Array(const T (&)[N]);
    ~Array();
    Array& operator=(const Array&);
    Array& operator=(Array&&);
    Array& operator=(const T&);
    operator T*();
    operator const T*() const;
    T* GetData();
    const T* GetData() const;
    int Size() const;
    int Capacity() const;
    void SetSize(int);
    void SetSize(int, const T&);
    void Reserve(int);
    T& operator[](int i);
    const T& operator[](int i) const;
    int Append(const T& el);
    int Append(const T* els, int nels);
    int Append(const Array<T>& els);
    int Prepend(const T& el);
    int Union(const T& el);
    int Find(const T& el) const;
    int FindSorted(const T& el) const;
    T& Last();
    const T& Last() const;
    void DeleteLast();
    void DeleteFirst(const T& el);
    void DeleteAll();
    void MakeRef(T*, int);
    void MakeRef(const Array&);
    void Copy(Array&) const;
    void Assign(const T*);
    T Max() const;
    T Min() const;
    T Sum() const;
    void Sort();
    void Unique();
    void PartialSum();
    int IsSorted() const;
    bool IsEmpty() const;
    void Print(std::ostream& = mfem::out, int = 4) const;
    void Save(std::ostream&, int = 0) const;
    void Load(std::istream&, int = 0);
    T* begin();
    T* end();
    const T* begin() const;
    const T* end() const;
    const T* Read(bool = true) const;
    T* Write(bool = true);
    T* ReadWrite(bool = true);
    const T* HostRead() const;
    T* HostWrite();
    T* HostReadWrite();
    void UseDevice(bool);
};
template <class T> bool operator==(const Array<T>&, const Array<T>&);
template <class T> bool operator!=(const Array<T>&, const Array<T>&);

class Table {
public:
    Table();
    Table(int dim, int connections_per_row = 3);
    int Size() const;
    int Width() const;
    int Size_of_connections() const;
    void GetRow(int i, Array<int>& row) const;
    int RowSize(int i) const;
    void Finalize();
    void MakeI(int); void MakeJ(); void AddAColumnInRow(int); void AddConnection(int, int); void ShiftUpI(); int Push(int, int);
    const int* GetRow(int i) const;
    int* GetRow(int i);
    int* GetI();
    int* GetJ();
    const int* GetI() const;
    const int* GetJ() const;
    int operator()(int i, int j) const;
};

class DenseMatrix;
class SparseMatrix;

class Vector {
public:
    Vector();
    Vector(const Vector&);
    Vector(Vector&&);
    explicit Vector(int s);
    Vector(int s, MemoryType);
    Vector(double* _data, int _size);
    Vector(Vector& base, int base_offset, int size);
    template <int N> explicit Vector(const double (&values)[N]);
    Vector(std::initializer_list<double>);
    virtual ~Vector();
    virtual void UseDevice(bool) const;
    virtual bool UseDevice() const;
    void Load(std::istream** in, int np, int* dim);
    void Load(std::istream& in, int Size);
    void Load(std::istream& in);
    void SetSize(int s);
    void SetSize(int s, MemoryType);
    void SetSize(int s, const Vector&);
    void SetData(double* d);
    void SetDataAndSize(double* d, int s);
    void NewDataAndSize(double* d, int s);
    void MakeRef(Vector& base, int offset, int size);
    void MakeRef(Vector& base, int offset);
    void MakeDataOwner() const;
    void Destroy();
    int Size() const;
    int Capacity() const;
    double* GetData() const;
    operator double*();
    operator const double*() const;
    double* begin();
    double* end();
    const double* begin() const;
    const double* end() const;
    Memory<double>& GetMemory();
    const Memory<double>& GetMemory() const;
    void SyncMemory(const Vector&) const;
    void SyncAliasMemory(const Vector&) const;
    bool OwnsData() const;
    void StealData(double** p);
    double* StealData();
    double& Elem(int i);
    const double& Elem(int i) const;
    double& operator()(int i);
    const double& operator()(int i) const;
    double& operator[](int i);
    const double& operator[](int i) const;
    double operator*(const double*) const;
    double operator*(const Vector& v) const;
    Vector& operator=(const double* v);
    Vector& operator=(const Vector& v);
    Vector& operator=(Vector&& v);
    Vector& operator=(double value);
    Vector& operator*=(double c);
    Vector& operator*=(const Vector& v);
    Vector& operator/=(double c);
    Vector& operator/=(const Vector& v);
    Vector& operator-=(double c);
    Vector& operator-=(const Vector& v);
    Vector& operator+=(double c);
    Vector& operator+=(const Vector& v);
    Vector& Add(const double a, const Vector& Va);
    Vector& Set(const double a, const Vector& x);
    void SetVector(const Vector& v, int offset);
    void AddSubVector(const Vector& v, int offset);
    void Neg();
    void Reciprocal();
    void Abs();
    void Swap(Vector& other);
    void median(const Vector& lo, const Vector& hi);
    void GetSubVector(const Array<int>& dofs, Vector& elemvect) const;
    void GetSubVector(const Array<int>& dofs, double* elem_data) const;
    void SetSubVector(const Array<int>& dofs, const double value);
    void SetSubVector(const Array<int>& dofs, const Vector& elemvect);
    void SetSubVector(const Array<int>& dofs, double* elem_data);
    void AddElementVector(const Array<int>& dofs, const Vector& elemvect);
    void AddElementVector(const Array<int>& dofs, const double a, const Vector& elemvect);
    void SetSubVectorComplement(const Array<int>& dofs, const double val);
    void Print(std::ostream& out = mfem::out, int width = 8) const;
    void Print_HYPRE(std::ostream& out) const;
    void Save(std::ostream&, int = 8) const;
    void Randomize(int seed = 0);
    double Norml2() const;
    double Normlinf() const;
    double Norml1() const;
    double Normlp(double p) const;
    double Max() const;
    double Min() const;
    double Sum() const;
    double DistanceTo(const double* p) const;
    double DistanceTo(const Vector& p) const;
    double DistanceSquaredTo(const Vector& p) const;
    int CheckFinite() const;
    virtual const double* Read(bool = true) const;
    virtual const double* HostRead() const;
    virtual double* Write(bool = true);
    virtual double* HostWrite();
    virtual double* ReadWrite(bool = true);
    virtual double* HostReadWrite();
};
double InnerProduct(const Vector& x, const Vector& y);
double InnerProduct(MPI_Comm comm, const Vector& x, const Vector& y);
void add(const Vector& v1, const Vector& v2, Vector& v);
void add(const Vector& v1, double alpha, const Vector& v2, Vector& v);
void add(const double a, const Vector& x, const Vector& y, Vector& z);
void add(const double a, const Vector& x, const double b, const Vector& y, Vector& z);
void subtract(const Vector& v1, const Vector& v2, Vector& v);
void subtract(const double a, const Vector& x, const Vector& y, Vector& z);

class Operator {
protected:
    int height;
    int width;
public:
    explicit Operator(int s = 0);
    Operator(int h, int w);
    virtual ~Operator();
    int Height() const;
    int NumRows() const;
    int Width() const;
    int NumCols() const;
    virtual MemoryClass GetMemoryClass() const;
    virtual void Mult(const Vector& x, Vector& y) const = 0;
    virtual void MultTranspose(const Vector& x, Vector& y) const;
    virtual void AddMult(const Vector& x, Vector& y, const double a = 1.0) const;
    virtual void AddMultTranspose(const Vector& x, Vector& y, const double a = 1.0) const;
    virtual Operator& GetGradient(const Vector& x) const;
    void PrintMatlab(std::ostream& out) const;
};

class TimeDependentOperator : public Operator {
public:
    enum Type { EXPLICIT, IMPLICIT, HOMOGENEOUS };
    enum EvalMode { NORMAL, ADDITIVE_TERM_1, ADDITIVE_TERM_2 };
protected:
    double t;
    Type type;
    EvalMode eval_mode;
public:
    explicit TimeDependentOperator(int n = 0, double t_ = 0.0, Type type_ = EXPLICIT);
    TimeDependentOperator(int h, int w, double t_ = 0.0, Type type_ = EXPLICIT);
    virtual double GetTime() const;
    virtual void SetTime(const double t_);
    bool isExplicit() const;
    bool isImplicit() const;
    virtual void ExplicitMult(const Vector& x, Vector& y) const;
    virtual void ImplicitMult(const Vector& x, const Vector& k, Vector& y) const;
    virtual void Mult(const Vector& x, Vector& y) const override;
    virtual void ImplicitSolve(const double dt, const Vector& x, Vector& k);
};

class Solver : public Operator {
public:
    bool iterative_mode;
    explicit Solver(int s = 0, bool iter_mode = false);
    Solver(int h, int w, bool iter_mode = false);
    virtual void SetOperator(const Operator& op) = 0;
};
class IdentityOperator : public Operator {
public:
    IdentityOperator(int n);
    void Mult(const Vector& x, Vector& y) const override;
};
class SumOperator : public Operator {
public:
    SumOperator(const Operator* A, const double alpha, const Operator* B, const double beta, bool ownA, bool ownB);
    void Mult(const Vector& x, Vector& y) const override;
};
class IterativeSolver : public Solver {
public:
    IterativeSolver();
    IterativeSolver(MPI_Comm);
    void SetRelTol(double);
    void SetAbsTol(double);
    void SetMaxIter(int);
    void SetPrintLevel(int);
    virtual void SetPreconditioner(Solver&);
    virtual void SetOperator(const Operator&) override;
    int GetNumIterations() const;
    bool GetConverged() const;
    double GetFinalNorm() const;
};
class GMRESSolver : public IterativeSolver {
public:
    GMRESSolver();
    GMRESSolver(MPI_Comm);
    void SetKDim(int);
    void Mult(const Vector& b, Vector& x) const override;
};
class CGSolver : public IterativeSolver {
public:
    CGSolver();
    CGSolver(MPI_Comm);
    void Mult(const Vector& b, Vector& x) const override;
};
class BiCGSTABSolver : public IterativeSolver {
public:
    BiCGSTABSolver();
    BiCGSTABSolver(MPI_Comm);
    void Mult(const Vector& b, Vector& x) const override;
};

class Matrix : public Operator {
public:
    explicit Matrix(int s);
    explicit Matrix(int h, int w);
    virtual double& Elem(int i, int j) = 0;
    virtual const double& Elem(int i, int j) const = 0;
    virtual void Finalize(int);
    virtual void Print(std::ostream& out = mfem::out, int width_ = 4) const;
};

class DenseMatrix : public Matrix {
public:
    DenseMatrix();
    DenseMatrix(const DenseMatrix&);
    DenseMatrix(DenseMatrix&&);
    explicit DenseMatrix(int s);
    DenseMatrix(int m, int n);
    DenseMatrix(double* d, int h, int w);
    DenseMatrix(const DenseMatrix& mat, char ch);
    template <int M, int N> explicit DenseMatrix(const double (&values)[M][N]);
    DenseMatrix& operator=(const DenseMatrix&);
    DenseMatrix& operator=(DenseMatrix&&);
    DenseMatrix& operator=(double);
    DenseMatrix& operator=(const double*);
    DenseMatrix& operator+=(const double*);
    DenseMatrix& operator+=(const DenseMatrix&);
    DenseMatrix& operator-=(const DenseMatrix&);
    DenseMatrix& operator*=(double);
    void UseExternalData(double*, int, int);
    void Reset(double*, int, int);
    void ClearExternalData();
    void Clear();
    int Size() const;
    void SetSize(int);
    void SetSize(int, int);
    double* Data() const;
    double* GetData() const;
    Memory<double>& GetMemory();
    double& operator()(int i, int j);
    const double& operator()(int i, int j) const;
    double operator*(const DenseMatrix&) const;
    double Trace() const;
    double& Elem(int i, int j) override;
    const double& Elem(int i, int j) const override;
    void Mult(const double* x, double* y) const;
    void Mult(const Vector& x, Vector& y) const override;
    void Mult(const double* x, Vector& y) const;
    void Mult(const Vector& x, double* y) const;
    void MultTranspose(const double* x, double* y) const;
    void MultTranspose(const Vector& x, Vector& y) const override;
    void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override;
    void AddMult_a(double a, const Vector& x, Vector& y) const;
    double InnerProduct(const Vector& x, const Vector& y) const;
    void LeftScaling(const Vector&);
    void RightScaling(const Vector&);
    void Invert();
    double Det() const;
    double Weight() const;
    void Set(double alpha, const double* A);
    void Set(double alpha, const DenseMatrix& A);
    void Add(const double c, const DenseMatrix& A);
    void Neg();
    double* GetColumn(int col);
    void GetColumn(int c, Vector& col) const;
    void GetColumnReference(int c, Vector& col);
    void GetRow(int r, Vector& row) const;
    void SetRow(int r, const double* row);
    void SetRow(int r, const Vector& row);
    void SetCol(int c, const double* col);
    void SetCol(int c, const Vector& col);
    void SetRow(int row, double value);
    void SetCol(int col, double value);
    void GetDiag(Vector& d) const;
    void Diag(double c, int n);
    void Transpose();
    void Transpose(const DenseMatrix& A);
    void CopyMN(const DenseMatrix& A, int m, int n, int Aro, int Aco);
    void CopyMN(const DenseMatrix& A, int row_offset, int col_offset);
    void AddMatrix(DenseMatrix& A, int ro, int co);
    void AddMatrix(double a, const DenseMatrix& A, int ro, int co);
    double Norm2() const;
    double MaxMaxNorm() const;
    double FNorm() const;
    void Threshold(double eps);
    void Print(std::ostream& out = mfem::out, int width_ = 4) const override;
    void PrintMatlab(std::ostream& out = mfem::out) const;
    void GetSubMatrix(const Array<int>& idx, DenseMatrix& A) const;
    void Eigenvalues(Vector& ev);
    const double* Read(bool = true) const;
    const double* HostRead() const;
    double* Write(bool = true);
    double* HostWrite();
    double* HostReadWrite();
};
class DenseMatrixInverse : public Solver {
public:
    DenseMatrixInverse(bool spd = false);
    DenseMatrixInverse(const DenseMatrix& mat, bool spd = false);
    DenseMatrixInverse(const DenseMatrix* mat, bool spd = false);
    void Factor();
    void Factor(const DenseMatrix& mat);
    void SetOperator(const Operator& op) override;
    void Mult(const double* x, double* y) const;
    void Mult(const Vector& x, Vector& y) const override;
    void Mult(const DenseMatrix& B, DenseMatrix& X) const;
    void Mult(DenseMatrix& X) const;
    void GetInverseMatrix(DenseMatrix& Ainv) const;
    double Det() const;
};
class DenseTensor {
public:
    DenseTensor();
    DenseTensor(int i, int j, int k);
    int SizeI() const; int SizeJ() const; int SizeK() const;
    void SetSize(int i, int j, int k);
    DenseMatrix& operator()(int k);
    const DenseMatrix& operator()(int k) const;
    double& operator()(int i, int j, int k);
    const double& operator()(int i, int j, int k) const;
    double* Data();
    const double* Data() const;
};
void Mult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a);
void AddMult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a);
void AddMult_a(double alpha, const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a);
void CalcAdjugate(const DenseMatrix& a, DenseMatrix& adja);
void CalcInverse(const DenseMatrix& a, DenseMatrix& inva);
void CalcOrtho(const DenseMatrix& J, Vector& n);
void MultAAt(const DenseMatrix& a, DenseMatrix& aat);
void MultAtB(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& AtB);
void MultABt(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& ABt);
void MultVVt(const Vector& v, DenseMatrix& vvt);
void MultVWt(const Vector& v, const Vector& w, DenseMatrix& VWt);
void AddMultVWt(const Vector& v, const Vector& w, DenseMatrix& VWt);
void AddMult_a_VWt(const double a, const Vector& v, const Vector& w, DenseMatrix& VWt);
void AddMult_a_VVt(const double a, const Vector& v, DenseMatrix& VVt);

class SparseMatrix : public Matrix {
public:
    SparseMatrix();
    explicit SparseMatrix(int nrows, int ncols = -1);
    SparseMatrix(int* i, int* j, double* data, int m, int n);
    SparseMatrix(int* i, int* j, double* data, int m, int n, bool ownij, bool owna, bool issorted);
    SparseMatrix(int nrows, int ncols, int rowsize);
    SparseMatrix(const SparseMatrix& mat, bool copy_graph = true, MemoryType mt = MemoryType::DEFAULT);
    SparseMatrix(const Vector& v);
    SparseMatrix& operator=(const SparseMatrix&);
    SparseMatrix& operator=(double);
    SparseMatrix& operator+=(const SparseMatrix&);
    SparseMatrix& operator*=(double);
    void UseGPUSparse(bool = true);
    void UseCuSparse(bool = true);
    void MakeRef(const SparseMatrix&);
    int Size() const;
    void Clear();
    bool Empty() const;
    int* GetI();
    const int* GetI() const;
    int* GetJ();
    const int* GetJ() const;
    double* GetData();
    const double* GetData() const;
    Memory<int>& GetMemoryI();
    Memory<int>& GetMemoryJ();
    Memory<double>& GetMemoryData();
    const Memory<int>& GetMemoryI() const;
    const Memory<int>& GetMemoryJ() const;
    const Memory<double>& GetMemoryData() const;
    const int* ReadI(bool = true) const;
    const int* ReadJ(bool = true) const;
    const double* ReadData(bool = true) const;
    const int* HostReadI() const;
    const int* HostReadJ() const;
    const double* HostReadData() const;
    double* HostReadWriteData();
    int RowSize(int i) const;
    int MaxRowSize() const;
    int* GetRowColumns(int row);
    const int* GetRowColumns(int row) const;
    double* GetRowEntries(int row);
    const double* GetRowEntries(int row) const;
    void SetWidth(int width_ = -1);
    int ActualWidth() const;
    void SortColumnIndices();
    bool ColumnsAreSorted() const;
    double& Elem(int i, int j) override;
    const double& Elem(int i, int j) const override;
    double& operator()(int i, int j);
    const double& operator()(int i, int j) const;
    void GetDiag(Vector& d) const;
    DenseMatrix* ToDenseMatrix() const;
    void ToDenseMatrix(DenseMatrix& B) const;
    void Mult(const Vector& x, Vector& y) const override;
    void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override;
    void MultTranspose(const Vector& x, Vector& y) const override;
    void AddMultTranspose(const Vector& x, Vector& y, const double a = 1.0) const override;
    void PartMult(const Array<int>& rows, const Vector& x, Vector& y) const;
    void PartAddMult(const Array<int>& rows, const Vector& x, Vector& y, const double a = 1.0) const;
    double InnerProduct(const Vector& x, const Vector& y) const;
    void ScaleRow(const int row, const double scale);
    void ScaleRows(const Vector& sl);
    void ScaleColumns(const Vector& sr);
    void SetGraph(bool);
    void Finalize(int skip_zeros = 1) override;
    bool Finalized() const;
    void Threshold(double tol, bool fix_empty_rows = false);
    void SetColPtr(const int row) const;
    void ClearColPtr() const;
    void Set(const int i, const int j, const double val);
    void Add(const int i, const int j, const double val);
    void _Set_(const int col, const double a);
    void _Add_(const int col, const double a);
    void SetSubMatrix(const Array<int>& rows, const Array<int>& cols, const DenseMatrix& subm, int skip_zeros = 1);
    void AddSubMatrix(const Array<int>& rows, const Array<int>& cols, const DenseMatrix& subm, int skip_zeros = 1);
    bool RowIsEmpty(const int row) const;
    int GetRow(const int row, Array<int>& cols, Vector& srow) const;
    void SetRow(const int row, const Array<int>& cols, const Vector& srow);
    void AddRow(const int row, const Array<int>& cols, const Vector& srow);
    void Add(const double a, const SparseMatrix& B);
    int NumNonZeroElems() const;
    double MaxNorm() const;
    int CountSmallElems(double tol) const;
    void LoseData();
    void Swap(SparseMatrix& other);
    bool isSorted;
    void Print(std::ostream& out = mfem::out, int width_ = 4) const override;
    void PrintMatlab(std::ostream& out = mfem::out) const;
    void PrintMM(std::ostream& out = mfem::out) const;
    void PrintCSR(std::ostream& out) const;
    void PrintCSR2(std::ostream& out) const;
};
SparseMatrix* Add(const SparseMatrix& A, const SparseMatrix& B);
SparseMatrix* Add(double a, const SparseMatrix& A, double b, const SparseMatrix& B);
SparseMatrix* Add(Array<SparseMatrix*>& Ai);
SparseMatrix* Mult(const SparseMatrix& A, const SparseMatrix& B, SparseMatrix* OAB = nullptr);
SparseMatrix* Transpose(const SparseMatrix& A);
SparseMatrix* OuterProduct(const SparseMatrix& A, const SparseMatrix& B);
class BlockMatrix : public Operator {
public:
    BlockMatrix(const Array<int>& offsets);
    BlockMatrix(const Array<int>& row_offsets, const Array<int>& col_offsets);
    void SetBlock(int i, int j, SparseMatrix* mat);
    SparseMatrix* CreateMonolithic() const;
    void Mult(const Vector& x, Vector& y) const override;
};
class HypreParMatrix : public Operator {
public:
    HypreParMatrix();
    HypreParMatrix(MPI_Comm, HYPRE_BigInt, HYPRE_BigInt*, SparseMatrix*);
    void Mult(const Vector& x, Vector& y) const override;
    void GetDiag(SparseMatrix&) const;
    void GetOffd(SparseMatrix&, HYPRE_BigInt*&) const;
};
class HypreParVector : public Vector { public: HypreParVector(); };

class Geometry {
public:
    enum Type { INVALID = -1, POINT = 0, SEGMENT, TRIANGLE, SQUARE, TETRAHEDRON, CUBE, PRISM, PYRAMID, NUM_GEOMETRIES };
    static const char* Name[NUM_GEOMETRIES];
    static const double Volume[NUM_GEOMETRIES];
    static const int Dimension[NUM_GEOMETRIES];
    static const int NumBdrArray[NUM_GEOMETRIES];
    static const int NumVerts[NUM_GEOMETRIES];
    static const int NumEdges[NUM_GEOMETRIES];
    static const int NumFaces[NUM_GEOMETRIES];
    static const int DimStart[5];
    static int NumBdr(int);
    const class IntegrationRule* GetVertices(int) const;
    const class IntegrationPoint& GetCenter(int) const;
};
extern Geometry Geometries;

struct Quadrature1D { enum { Invalid = -1, GaussLegendre = 0, GaussLobatto = 1 }; };
class BasisType {
public:
    enum { Invalid = -1, GaussLegendre = 0, GaussLobatto = 1, Positive = 2, OpenUniform = 3, ClosedUniform = 4, OpenHalfUniform = 5, Serendipity = 6, ClosedGL = 7, IntegratedGLL = 8, NumBasisTypes = 9 };
    static int Check(int);
    static int GetType(char);
    static char GetChar(int);
    static const char* Name(int);
};

class IntegrationPoint {
public:
    double x, y, z;
    double weight;
    int index;
    void Init(int const i);
    void Get(double* p, const int dim) const;
    void Set(const double* p, const int dim);
    void Set(const double x1, const double x2, const double x3, const double w);
    void Set3w(const double* p);
    void Set3(const double x1, const double x2, const double x3);
    void Set3(const double* p);
    void Set2w(const double x1, const double x2, const double w);
    void Set2(const double x1, const double x2);
    void Set2(const double* p);
    void Set1w(const double x1, const double w);
    void Set1w(const double* p);
};
class IntegrationRule : public Array<IntegrationPoint> {
public:
    IntegrationRule();
    explicit IntegrationRule(int NP);
    int GetOrder() const;
    void SetOrder(const int);
    int GetNPoints() const;
    IntegrationPoint& IntPoint(int i);
    const IntegrationPoint& IntPoint(int i) const;
    const Array<double>& GetWeights() const;
};
class IntegrationRules {
public:
    explicit IntegrationRules(int ref = 0, int type = Quadrature1D::GaussLegendre);
    const IntegrationRule& Get(int GeomType, int Order);
};
extern IntegrationRules IntRules;
extern IntegrationRules RefinedIntRules;

class Mesh;
class ParMesh;
class FiniteElementSpace;
class ParFiniteElementSpace;
class GridFunction;
class ParGridFunction;
class FaceElementTransformations;
class ElementTransformation;

class Element {
public:
    enum Type { POINT, SEGMENT, TRIANGLE, QUADRILATERAL, TETRAHEDRON, HEXAHEDRON, WEDGE, PYRAMID };
    virtual ~Element();
    virtual Type GetType() const = 0;
    Geometry::Type GetGeometryType() const;
    int GetAttribute() const;
    void SetAttribute(const int attr);
    virtual void SetVertices(const Array<int>& v) = 0;
    virtual void SetVertices(const int* ind) = 0;
    virtual void GetVertices(Array<int>& v) const = 0;
    virtual int* GetVertices() = 0;
    const int* GetVertices() const;
    virtual int GetNVertices() const = 0;
    virtual int GetNEdges() const = 0;
    virtual const int* GetEdgeVertices(int) const = 0;
    virtual int GetNFaces() const = 0;
    virtual int GetNFaceVertices(int fi) const = 0;
    virtual const int* GetFaceVertices(int fi) const = 0;
    virtual Element* Duplicate(Mesh* m) const = 0;
};
class Point : public Element {
public:
    Point(); Point(const int* ind, int attr = -1);
    Type GetType() const override; void SetVertices(const Array<int>&) override; void SetVertices(const int*) override;
    void GetVertices(Array<int>&) const override; int* GetVertices() override; int GetNVertices() const override; int GetNEdges() const override;
    const int* GetEdgeVertices(int) const override; int GetNFaces() const override; int GetNFaceVertices(int) const override; const int* GetFaceVertices(int) const override;
    Element* Duplicate(Mesh*) const override;
};

class FunctionSpace { public: enum { Pk, Qk, rQk, Uk }; };
class FiniteElement {
public:
    enum MapType { UNKNOWN_MAP_TYPE = -1, VALUE, INTEGRAL, H_DIV, H_CURL };
    virtual ~FiniteElement();
    int GetDim() const;
    int GetRangeDim() const;
    Geometry::Type GetGeomType() const;
    int GetDof() const;
    int GetOrder() const;
    int GetMapType() const;
    int Space() const;
    const IntegrationRule& GetNodes() const;
    enum RangeType { UNKNOWN_RANGE_TYPE = -1, SCALAR, VECTOR };
    virtual void CalcShape(const IntegrationPoint& ip, Vector& shape) const = 0;
    void CalcPhysShape(ElementTransformation& Trans, Vector& shape) const;
    virtual void CalcDShape(const IntegrationPoint& ip, DenseMatrix& dshape) const = 0;
    void CalcPhysDShape(ElementTransformation& Trans, DenseMatrix& dshape) const;
    virtual void CalcVShape(const IntegrationPoint& ip, DenseMatrix& shape) const;
    virtual void CalcVShape(ElementTransformation& Trans, DenseMatrix& shape) const;
};

class ElementTransformation {
public:
    int Attribute;
    int ElementNo;
    int ElementType;
    int mesh;
    virtual ~ElementTransformation();
    void Reset();
    void SetIntPoint(const IntegrationPoint* ip);
    const IntegrationPoint& GetIntPoint();
    virtual void Transform(const IntegrationPoint&, Vector&) = 0;
    virtual void Transform(const IntegrationRule&, DenseMatrix&) = 0;
    virtual void Transform(const DenseMatrix& matrix, DenseMatrix& result) = 0;
    const DenseMatrix& Jacobian();
    double Weight();
    const DenseMatrix& AdjugateJacobian();
    const DenseMatrix& InverseJacobian();
    virtual int Order() const = 0;
    virtual int OrderJ() const = 0;
    virtual int OrderW() const = 0;
    virtual int OrderGrad(const FiniteElement* fe) const = 0;
    Geometry::Type GetGeometryType() const;
    int GetDimension() const;
    virtual int GetSpaceDim() const = 0;
    virtual int TransformBack(const Vector& pt, IntegrationPoint& ip) = 0;
};
class IsoparametricTransformation : public ElementTransformation {
public:
    IsoparametricTransformation();
    void SetFE(const FiniteElement*);
    const FiniteElement* GetFE() const;
    DenseMatrix& GetPointMat();
    const DenseMatrix& GetPointMat() const;
    void SetIdentityTransformation(Geometry::Type);
    void Transform(const IntegrationPoint&, Vector&) override;
    void Transform(const IntegrationRule&, DenseMatrix&) override;
    void Transform(const DenseMatrix& matrix, DenseMatrix& result) override;
    int Order() const override; int OrderJ() const override; int OrderW() const override; int OrderGrad(const FiniteElement*) const override;
    int GetSpaceDim() const override;
    int TransformBack(const Vector& v, IntegrationPoint& ip) override;
};
class IntegrationPointTransformation {
public:
    IsoparametricTransformation Transf;
    void Transform(const IntegrationPoint&, IntegrationPoint&);
    void Transform(const IntegrationRule&, IntegrationRule&);
};
class FaceElementTransformations : public IsoparametricTransformation {
public:
    int Elem1No, Elem2No;
    Geometry::Type& FaceGeom;
    ElementTransformation *Elem1, *Elem2, *Face;
    IntegrationPointTransformation Loc1, Loc2;
    enum ConfigurationMasks { HAVE_ELEM1 = 1, HAVE_ELEM2 = 2, HAVE_LOC1 = 4, HAVE_LOC2 = 8, HAVE_FACE = 16 };
    FaceElementTransformations();
    int GetConfigurationMask() const;
    void SetIntPoint(const IntegrationPoint* face_ip);
    void SetAllIntPoints(const IntegrationPoint* face_ip);
    const IntegrationPoint& GetElement1IntPoint();
    const IntegrationPoint& GetElement2IntPoint();
    Geometry::Type GetGeometryType() const;
    ElementTransformation& GetElement1Transformation();
    ElementTransformation& GetElement2Transformation();
    IntegrationPointTransformation& GetIntPoint1Transformation();
    IntegrationPointTransformation& GetIntPoint2Transformation();
};

class AttributeSets {};
class MeshPart;
class Mesh {
public:
    enum class FaceTopology { Boundary, Conforming, Nonconforming, NA };
    enum class ElementLocation { Local, FaceNbr, NA };
    enum class ElementConformity { Coincident, Superset, Subset, NA };
    enum Operation { NONE, REFINE, DEREFINE, REBALANCE };
    struct FaceInformation {
        FaceTopology topology;
        struct { ElementLocation location; ElementConformity conformity; int index; int local_face_id; int orientation; } element[2];
        int tag; int ncface;
        bool IsLocal() const; bool IsShared() const; bool IsInterior() const; bool IsBoundary() const; bool IsConforming() const; bool IsGhost() const;
    };
    Array<int> attributes;
    Array<int> bdr_attributes;
    AttributeSets attribute_sets, bdr_attribute_sets;
    Mesh();
    Mesh(const Mesh& mesh, bool copy_nodes = true);
    Mesh(Mesh&&);
    Mesh& operator=(Mesh&&);
    Mesh& operator=(const Mesh&);
    Mesh(int Dim_, int NVert, int NElem, int NBdrElem = 0, int spaceDim_ = -1);
    explicit Mesh(const std::string& filename, int generate_edges = 0, int refine = 1, bool fix_orientation = true);
    explicit Mesh(std::istream& input, int generate_edges = 0, int refine = 1, bool fix_orientation = true);
    Mesh(Mesh* mesh_array[], int num_pieces);
    virtual ~Mesh();
    static Mesh LoadFromFile(const std::string& filename, int generate_edges = 0, int refine = 1, bool fix_orientation = true);
    static Mesh LoadFromFileNoBdrFix(const std::string& filename, int generate_edges = 0, int refine = 1, bool fix_orientation = true);
    static Mesh MakeCartesian1D(int n, double sx = 1.0);
    static Mesh MakeCartesian2D(int nx, int ny, Element::Type type, bool generate_edges = false, double sx = 1.0, double sy = 1.0, bool sfc_ordering = true);
    static Mesh MakeCartesian3D(int nx, int ny, int nz, Element::Type type, double sx = 1.0, double sy = 1.0, double sz = 1.0, bool sfc_ordering = true);
    static Mesh MakeRefined(Mesh& orig_mesh, int ref_factor, int ref_type);
    static Mesh MakeSimplicial(const Mesh&);
    static Mesh MakePeriodic(const Mesh&, const std::vector<int>&);
    int Dimension() const;
    int SpaceDimension() const;
    int GetNV() const; int GetNE() const; int GetNBE() const; int GetNEdges() const; int GetNFaces() const; int GetNumFaces() const;
    int GetNumFacesWithGhost() const;
    long long GetGlobalNE() const;
    int AddVertex(double x, double y = 0.0, double z = 0.0);
    int AddVertex(const double* coords);
    int AddVertex(const Vector& coords);
    int AddSegment(int v1, int v2, int attr = 1);
    int AddTriangle(int v1, int v2, int v3, int attr = 1);
    int AddTriangle(const int* vi, int attr = 1);
    int AddQuad(int v1, int v2, int v3, int v4, int attr = 1);
    int AddTet(int v1, int v2, int v3, int v4, int attr = 1);
    int AddHex(const int* vi, int attr = 1);
    int AddElement(Element* elem);
    int AddBdrElement(Element* elem);
    int AddBdrSegment(int v1, int v2, int attr = 1);
    int AddBdrTriangle(int v1, int v2, int v3, int attr = 1);
    int AddBdrQuad(int v1, int v2, int v3, int v4, int attr = 1);
    int AddBdrPoint(int v, int attr = 1);
    void GenerateBoundaryElements();
    void FinalizeTopology(bool generate_bdr = true);
    virtual void Finalize(bool refine = false, bool fix_orientation = false);
    void FinalizeMesh(int refine = 0, bool fix_orientation = true);
    virtual void SetAttributes();
    const double* GetVertex(int i) const;
    double* GetVertex(int i);
    void GetVertices(Vector& vert_coord) const;
    const Element* const* GetElementsArray() const;
    Element* GetElement(int i);
    const Element* GetElement(int i) const;
    Element* GetBdrElement(int i);
    const Element* GetBdrElement(int i) const;
    const Element* GetFace(int i) const;
    Geometry::Type GetFaceGeometry(int i) const;
    Geometry::Type GetElementGeometry(int i) const;
    Geometry::Type GetBdrElementGeometry(int i) const;
    Geometry::Type GetElementBaseGeometry(int i) const;
    Geometry::Type GetFaceBaseGeometry(int i) const;
    Geometry::Type GetBdrElementBaseGeometry(int i) const;
    Element::Type GetElementType(int i) const;
    Element::Type GetBdrElementType(int i) const;
    int GetAttribute(int i) const;
    void SetAttribute(int i, int attr);
    int GetBdrAttribute(int i) const;
    void SetBdrAttribute(int i, int attr);
    int GetNumGeometries(int dim) const;
    bool HasGeometry(Geometry::Type) const;
    void GetElementVertices(int i, Array<int>& v) const;
    void GetBdrElementVertices(int i, Array<int>& v) const;
    void GetElementEdges(int i, Array<int>& edges, Array<int>& cor) const;
    void GetBdrElementEdges(int i, Array<int>& edges, Array<int>& cor) const;
    void GetFaceEdges(int i, Array<int>&, Array<int>&) const;
    void GetFaceVertices(int i, Array<int>& vert) const;
    void GetEdgeVertices(int i, Array<int>& vert) const;
    void GetElementFaces(int i, Array<int>& faces, Array<int>& ori) const;
    Array<int> GetFaceToBdrElMap() const;
    void GetBdrElementFace(int i, int* f, int* o) const;
    void GetBdrElementAdjacentElement(int bdr_el, int& el, int& info) const;
    int GetBdrElementFaceIndex(int be_idx) const;
    int GetBdrElementEdgeIndex(int i) const;
    int GetBdrFace(int) const;
    void GetFaceElements(int Face, int* Elem1, int* Elem2) const;
    void GetFaceInfos(int Face, int* Inf1, int* Inf2) const;
    void GetFaceInfos(int Face, int* Inf1, int* Inf2, int* NCFace) const;
    FaceInformation GetFaceInformation(int f) const;
    bool FaceIsInterior(int FaceNo) const;
    bool FaceIsTrueInterior(int FaceNo) const;
    void GetElementTransformation(int i, IsoparametricTransformation* ElTr) const;
    ElementTransformation* GetElementTransformation(int i);
    void GetElementTransformation(int i, const Vector& nodes, IsoparametricTransformation* ElTr) const;
    void GetBdrElementTransformation(int i, IsoparametricTransformation* ElTr) const;
    ElementTransformation* GetBdrElementTransformation(int i);
    void GetFaceTransformation(int i, IsoparametricTransformation* FTr) const;
    ElementTransformation* GetFaceTransformation(int FaceNo);
    FaceElementTransformations* GetFaceElementTransformations(int FaceNo, int mask = 31);
    FaceElementTransformations* GetInteriorFaceTransformations(int FaceNo);
    FaceElementTransformations* GetInternalBdrFaceTransformations(int BdrElemNo);
    FaceElementTransformations* GetBdrFaceTransformations(int BdrElemNo);
    const Table& ElementToElementTable();
    const Table& ElementToFaceTable() const;
    void GetEdgeTransformation(int i, IsoparametricTransformation* EdTr) const;
    ElementTransformation* GetEdgeTransformation(int EdgeNo);
    const Table& ElementToEdgeTable() const;
    Table* GetFaceToElementTable() const;
    Table* GetVertexToElementTable();
    const FiniteElementSpace* GetNodalFESpace() const;
    void EnsureNodes();
    virtual void SetCurvature(int order, bool discont = false, int space_dim = -1, int ordering = 1);
    void GetNodes(Vector& node_coord) const;
    void SetNodes(const Vector& node_coord);
    GridFunction* GetNodes();
    const GridFunction* GetNodes() const;
    bool OwnsNodes() const;
    void SetNodalFESpace(FiniteElementSpace*);
    void NewNodes(GridFunction& nodes, bool make_owner = false);
    void SetVertices(const Vector& vert_coord);
    void UniformRefinement(int ref_algo = 0);
    void RemoveInternalBoundaries();
    double GetElementSize(int i, int type = 0);
    double GetElementSize(ElementTransformation* T, int type = 0) const;
    double GetElementSize(int i, const Vector& dir);
    double GetElementVolume(int i);
    void GetElementCenter(int i, Vector& center);
    void GetBoundingBox(Vector& min, Vector& max, int ref = 2);
    void GetCharacteristics(double& h_min, double& h_max, double& kappa_min, double& kappa_max, Vector* Vh = nullptr, Vector* Vk = nullptr);
    int* GeneratePartitioning(int nparts, int part_method = 1);
    int* CartesianPartitioning(int nxyz[]);
    virtual void Print(std::ostream& os = mfem::out, const std::string& comments = "") const;
    virtual void Save(const std::string& fname, int precision = 16) const;
    void PrintVTU(const std::string&);
    void PrintInfo(std::ostream& os = mfem::out);
    virtual int FindPoints(DenseMatrix& point_mat, Array<int>& elem_ids, Array<IntegrationPoint>& ips, bool warn = true, void* inv_trans = nullptr);
    void Swap(Mesh& other, bool non_geometry);
    virtual void Transform(void (*f)(const Vector&, Vector&));
    void ReorientTetMesh();
    void DegreeElevate(int);
    void DeleteGeometricFactors();
    void NodesUpdated();
    bool Conforming() const;
    bool Nonconforming() const;
    Element* NewElement(int geom);
    void AddPartitioning(int*);
};
class ParMesh : public Mesh {
public:
    Array<int> face_nbr_elements_offset;
    ParMesh();
    ParMesh(MPI_Comm comm, Mesh& mesh, const int* partitioning_ = nullptr, int part_method = 1);
    ParMesh(const ParMesh& pmesh, bool copy_nodes = true);
    ParMesh(ParMesh&&);
    ParMesh& operator=(ParMesh&&);
    MPI_Comm GetComm() const;
    int GetNRanks() const;
    int GetMyRank() const;
    long long GetGlobalElementNum(int local_element_num) const;
    int GetLocalElementNum(long long global) const;
    void ExchangeFaceNbrData();
    void ExchangeFaceNbrNodes();
    int GetNSharedFaces() const;
    int GetSharedFace(int sface) const;
    int GetNFaceNeighbors() const;
    int GetNFaceNeighborElements() const;
    int GetFaceNbrRank(int fn) const;
    int GetNGroups() const;
    FaceElementTransformations* GetSharedFaceTransformations(int sf, bool fill2 = true);
    FaceElementTransformations* GetSharedFaceTransformationsByLocalIndex(int FaceNo, bool fill2 = true);
    ElementTransformation* GetFaceNbrElementTransformation(int FaceNo);
    FaceElementTransformations* GetFaceElementTransformations(int FaceNo, int mask = 31);
    Mesh GetSerialMesh(int save_rank) const;
    void PrintAsOne(std::ostream& out = mfem::out) const;
    void ParPrint(std::ostream& out) const;
    void GetGlobalElementIndices(Array<HYPRE_BigInt>&) const;
};
class SubMesh;
struct FromArg { template <typename T> FromArg(T); };
namespace SubMeshUtils {
    template <typename ElementT> bool ElementHasAttribute(const ElementT& el, const Array<int>& attributes);
    void BuildVdofToVdofMap(const FiniteElementSpace& subfes, const FiniteElementSpace& parentfes, const FromArg& from, const Array<int>& parent_element_ids, Array<int>& vdof_to_vdof_map);
    Array<int> BuildFaceMap(const Mesh& pm, const Mesh& sm, const Array<int>& parent_element_ids);
}
class TransferMap;
class SubMesh : public Mesh {
public:
    enum From { Domain, Boundary };
    static const int GENERATED_ATTRIBUTE;
    SubMesh();
    SubMesh(const SubMesh&);
    static TransferMap CreateTransferMap(const GridFunction& src, const GridFunction& dst);
    SubMesh(SubMesh&&);
    SubMesh& operator=(SubMesh&&);
    static SubMesh CreateFromDomain(const Mesh& parent, Array<int> domain_attributes);
    static SubMesh CreateFromBoundary(const Mesh& parent, Array<int> boundary_attributes);
    const Mesh* GetParent() const;
    From GetFrom() const;
    const Array<int>& GetParentElementIDMap() const;
    const Array<int>& GetParentFaceIDMap() const;
    const Array<int>& GetParentEdgeIDMap() const;
    const Array<int>& GetParentVertexIDMap() const;
    const Array<int>& GetParentToSubMeshElementIDMap() const;
    int GetSubMeshElementFromParent(int) const;
    static void Transfer(const GridFunction& src, GridFunction& dst);
};
class ParSubMesh : public ParMesh {
public:
    ParSubMesh();
    ParSubMesh(const ParSubMesh&);
    static TransferMap CreateTransferMap(const ParGridFunction& src, const ParGridFunction& dst);
    ParSubMesh(ParSubMesh&&);
    ParSubMesh& operator=(ParSubMesh&&);
    static ParSubMesh CreateFromDomain(const ParMesh& parent, const Array<int>& domain_attributes);
    static ParSubMesh CreateFromBoundary(const ParMesh& parent, const Array<int>& boundary_attributes);
    const ParMesh* GetParent() const;
    SubMesh::From GetFrom() const;
    const Array<int>& GetParentElementIDMap() const;
    const Array<int>& GetParentFaceIDMap() const;
    const Array<int>& GetParentVertexIDMap() const;
    const Array<int>& GetParentToSubMeshElementIDMap() const;
    static void Transfer(const ParGridFunction& src, ParGridFunction& dst);
};
class TransferMap {
public:
    TransferMap();
    TransferMap(const GridFunction& src, const GridFunction& dst);
    TransferMap(const FiniteElementSpace& src, const FiniteElementSpace& dst);
    TransferMap(const TransferMap&);
    TransferMap(TransferMap&&);
    TransferMap& operator=(const TransferMap&);
    void Transfer(const GridFunction& src, GridFunction& dst) const;
    void TransferAdd(const GridFunction& src, GridFunction& dst) const;
    void TransferSub(const GridFunction& src, GridFunction& dst) const;
    enum class TransferCategory { ParentToSubMesh, SubMeshToParent, SubMeshToSubMesh };
    TransferCategory category_;
    Array<int> sub1_to_parent_map_;
    Array<int> sub2_to_parent_map_;
    std::unique_ptr<const FiniteElementSpace> root_fes_;
    std::unique_ptr<const class FiniteElementCollection> root_fec_;
    const FiniteElementSpace* src_;
    const FiniteElementSpace* dst_;
    mutable Vector z_;
    static void CorrectFaceOrientations(const FiniteElementSpace&, const Vector&, Vector&, const Array<int>* = nullptr);
};

class FiniteElementCollection {
public:
    virtual ~FiniteElementCollection();
    virtual const FiniteElement* FiniteElementForGeometry(Geometry::Type) const;
    virtual const char* Name() const;
    int GetOrder() const;
    const FiniteElement* GetFE(Geometry::Type, int) const;
};
class L2_FECollection : public FiniteElementCollection {
public:
    L2_FECollection(const int p, const int dim, const int btype = BasisType::GaussLegendre, const int map_type = FiniteElement::VALUE);
    int GetBasisType() const;
};
typedef L2_FECollection DG_FECollection;
class H1_FECollection : public FiniteElementCollection {
public:
    explicit H1_FECollection(const int p, const int dim = 3, const int btype = BasisType::GaussLobatto);
    int GetBasisType() const;
};
class ND_FECollection : public FiniteElementCollection { public: ND_FECollection(const int p, const int dim); };
class RT_FECollection : public FiniteElementCollection { public: RT_FECollection(const int p, const int dim); };

class DofTransformation;
class Ordering { public: enum Type { byNODES, byVDIM }; };

class FiniteElementSpace {
public:
    FiniteElementSpace();
    FiniteElementSpace(const FiniteElementSpace& orig, Mesh* mesh = nullptr, const FiniteElementCollection* fec = nullptr);
    FiniteElementSpace(Mesh* mesh, const FiniteElementCollection* fec, int vdim = 1, int ordering = Ordering::byNODES);
    virtual ~FiniteElementSpace();
    Mesh* GetMesh() const;
    int GetOrder(int i) const;
    int GetElementOrder(int i) const;
    int GetFaceOrder(int) const;
    int GetMaxElementOrder() const;
    int GetVDim() const;
    int GetNDofs() const;
    int GetVSize() const;
    virtual int GetTrueVSize() const;
    Ordering::Type GetOrdering() const;
    const FiniteElementCollection* FEColl() const;
    int GetNE() const; int GetNF() const; int GetNBE() const; int GetNV() const;
    int GetElementType(int i) const;
    int GetAttribute(int i) const;
    int GetBdrAttribute(int i) const;
    class DofTransformation* GetElementDofs(int elem, Array<int>& dofs) const;
    void GetBdrElementDofs(int bel, Array<int>& dofs) const;
    int GetFaceDofs(int face, Array<int>& dofs, int variant = 0) const;
    void GetElementVDofs(int i, Array<int>& vdofs) const;
    void GetBdrElementVDofs(int i, Array<int>& vdofs) const;
    void GetFaceVDofs(int i, Array<int>&) const;
    void GetElementInteriorDofs(int i, Array<int>& dofs) const;
    int DofToVDof(int dof, int vd, int ndofs = -1) const;
    void DofsToVDofs(Array<int>& dofs, int ndofs = -1) const;
    void DofsToVDofs(int vd, Array<int>& dofs, int ndofs = -1) const;
    static void AdjustVDofs(Array<int>& vdofs);
    const Table& GetElementToDofTable() const;
    const Table& GetBdrElementToDofTable() const;
    const FiniteElement* GetFE(int i) const;
    const FiniteElement* GetBE(int i) const;
    const FiniteElement* GetFaceElement(int i) const;
    const FiniteElement* GetTypicalFE() const;
    ElementTransformation* GetElementTransformation(int i) const;
    ElementTransformation* GetBdrElementTransformation(int i) const;
    const SparseMatrix* GetConformingProlongation() const;
    FiniteElementCollection* Load(Mesh* m, std::istream& input);
    void GetElementVertices(int i, Array<int>& vertices) const;
    void GetVertexDofs(int, Array<int>&) const;
    void GetEdgeDofs(int, Array<int>&) const;
    void BuildDofToArrays() const;
    int GetElementForDof(int i) const;
    int GetLocalDofForDof(int i) const;
    virtual void Update(bool want_transform = true);
    void Save(std::ostream&) const;
    int GetTypicalElementOrder() const;
};
class ParFiniteElementSpace : public FiniteElementSpace {
public:
    Table face_nbr_element_dof;
    Array<HYPRE_BigInt> face_nbr_glob_dof_map;
    Table face_nbr_ldof;
    Table send_face_nbr_ldof;
    int num_face_nbr_dofs;
    ParFiniteElementSpace(const ParFiniteElementSpace& orig, ParMesh* pmesh = nullptr, const FiniteElementCollection* fec = nullptr);
    ParFiniteElementSpace(ParMesh* pm, const FiniteElementCollection* f, int dim = 1, int ordering = Ordering::byNODES);
    MPI_Comm GetComm() const;
    int GetNRanks() const;
    int GetMyRank() const;
    ParMesh* GetParMesh() const;
    HYPRE_BigInt GlobalTrueVSize() const;
    HYPRE_BigInt GlobalVSize() const;
    HYPRE_BigInt GetMyDofOffset() const;
    HYPRE_BigInt GetMyTDofOffset() const;
    HYPRE_BigInt GetGlobalTDofNumber(int ldof) const;
    int TrueVSize() const;
    void ExchangeFaceNbrData();
    int GetFaceNbrVSize() const;
    void GetFaceNbrElementVDofs(int i, Array<int>& vdofs) const;
    void GetFaceNbrElementVDofs(int i, Array<int>& vdofs, class DofTransformation&) const;
    void GetFaceNbrFaceVDofs(int i, Array<int>& vdofs) const;
    const FiniteElement* GetFaceNbrFE(int i, int ndofs = 0) const;
    const FiniteElement* GetFaceNbrFaceFE(int i) const;
    const HYPRE_BigInt* GetFaceNbrGlobalDofMap();
    ElementTransformation* GetFaceNbrElementTransformation(int i) const;
    HYPRE_BigInt* GetDofOffsets() const;
    HypreParMatrix* Dof_TrueDof_Matrix() const;
};

class Coefficient {
protected:
    double time;
public:
    Coefficient();
    virtual ~Coefficient();
    virtual void SetTime(double t);
    double GetTime();
    virtual double Eval(ElementTransformation& T, const IntegrationPoint& ip) = 0;
    double Eval(ElementTransformation& T, const IntegrationPoint& ip, double t);
};
class ConstantCoefficient : public Coefficient {
public:
    double constant;
    explicit ConstantCoefficient(double c = 1.0);
    double Eval(ElementTransformation& T, const IntegrationPoint& ip) override;
};
class PWConstCoefficient : public Coefficient {
public:
    explicit PWConstCoefficient(int NumOfSubD = 0);
    PWConstCoefficient(Vector& c);
    void UpdateConstants(Vector& c);
    double& operator()(int i);
    int GetNConst();
    double Eval(ElementTransformation& T, const IntegrationPoint& ip) override;
};
class FunctionCoefficient : public Coefficient {
public:
    FunctionCoefficient(std::function<double(const Vector&)> F);
    FunctionCoefficient(std::function<double(const Vector&, double)> TDF);
    double Eval(ElementTransformation& T, const IntegrationPoint& ip) override;
};
class GridFunctionCoefficient : public Coefficient {
public:
    GridFunctionCoefficient(const GridFunction* gf, int comp = 1);
    double Eval(ElementTransformation& T, const IntegrationPoint& ip) override;
};
class ProductCoefficient : public Coefficient {
public:
    ProductCoefficient(double, Coefficient&);
    ProductCoefficient(Coefficient&, Coefficient&);
    double Eval(ElementTransformation& T, const IntegrationPoint& ip) override;
};
class VectorCoefficient {
protected:
    int vdim;
    double time;
public:
    VectorCoefficient(int vd);
    virtual ~VectorCoefficient();
    virtual void SetTime(double t);
    double GetTime();
    int GetVDim();
    virtual void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) = 0;
    virtual void Eval(DenseMatrix& M, ElementTransformation& T, const IntegrationRule& ir);
};
class VectorConstantCoefficient : public VectorCoefficient {
public:
    VectorConstantCoefficient(const Vector& v);
    const Vector& GetVec() const;
    void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) override;
};
class VectorFunctionCoefficient : public VectorCoefficient {
public:
    VectorFunctionCoefficient(int dim, std::function<void(const Vector&, Vector&)> F, Coefficient* q = nullptr);
    VectorFunctionCoefficient(int dim, std::function<void(const Vector&, double, Vector&)> TDF, Coefficient* q = nullptr);
    void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) override;
};
class VectorGridFunctionCoefficient : public VectorCoefficient {
public:
    VectorGridFunctionCoefficient(const GridFunction* gf);
    void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) override;
};

class GridFunction : public Vector {
public:
    FiniteElementSpace* fes;
    GridFunction();
    GridFunction(const GridFunction&);
    GridFunction(FiniteElementSpace* f);
    GridFunction(FiniteElementSpace* f, double* data);
    GridFunction(FiniteElementSpace* f, Vector& base, int base_offset = 0);
    GridFunction(Mesh* m, std::istream& input);
    GridFunction& operator=(const GridFunction&);
    GridFunction& operator=(double);
    GridFunction& operator=(const Vector&);
    void MakeOwner(FiniteElementCollection*);
    FiniteElementCollection* OwnFEC();
    int VectorDim() const;
    int CurlDim() const;
    virtual void GetValues(Array<double>&) const;
    virtual double GetValue(int i, const IntegrationPoint& ip, int vdim = 1) const;
    virtual double GetValue(ElementTransformation& T, const IntegrationPoint& ip, int comp = 0, Vector* tr = nullptr) const;
    virtual void GetVectorValue(int i, const IntegrationPoint& ip, Vector& val) const;
    virtual void GetVectorValue(ElementTransformation& T, const IntegrationPoint& ip, Vector& val, Vector* tr = nullptr) const;
    void GetNodalValues(int i, Array<double>& nval, int vdim = 1) const;
    void GetNodalValues(Vector& nval, int vdim = 1) const;
    void GetElementDofValues(int el, Vector& dof_vals) const;
    void GetGradient(ElementTransformation&, Vector&) const;
    void GetCurl(ElementTransformation&, Vector&) const;
    virtual void ProjectCoefficient(Coefficient& coeff);
    void ProjectCoefficient(Coefficient& coeff, Array<int>& dofs, int vd = 0);
    void ProjectCoefficient(VectorCoefficient& vcoeff);
    void ProjectCoefficient(Coefficient* coeff[]);
    virtual void ProjectBdrCoefficient(Coefficient& coeff, Array<int>& attr);
    void ProjectGridFunction(const GridFunction& src);
    virtual double ComputeL2Error(Coefficient& exsol, const IntegrationRule* irs[] = nullptr, const Array<int>* elems = nullptr) const;
    virtual double ComputeL2Error(VectorCoefficient& exsol, const IntegrationRule* irs[] = nullptr, const Array<int>* elems = nullptr) const;
    virtual double ComputeMaxError(Coefficient& exsol, const IntegrationRule* irs[] = nullptr) const;
    FiniteElementSpace* FESpace();
    const FiniteElementSpace* FESpace() const;
    virtual void SetSpace(FiniteElementSpace* f);
    virtual void Update();
    using Vector::MakeRef;
    virtual void MakeRef(FiniteElementSpace* f, double* v);
    virtual void MakeRef(FiniteElementSpace* f, Vector& v, int v_offset);
    void MakeTRef(FiniteElementSpace* f, double* tv);
    void SetTrueVector();
    void SetFromTrueVector();
    const Vector& GetTrueVector() const;
    virtual void Save(std::ostream& out) const;
    virtual void Save(const char* fname, int precision = 16) const;
    void SaveVTK(std::ostream& out, const std::string& field_name, int ref);
};
class ParGridFunction : public GridFunction {
public:
    ParFiniteElementSpace* pfes;
    ParGridFunction();
    ParGridFunction(const ParGridFunction&);
    ParGridFunction(ParFiniteElementSpace* pf);
    ParGridFunction(ParFiniteElementSpace* pf, double* data);
    ParGridFunction(ParFiniteElementSpace* pf, Vector& base, int base_offset = 0);
    ParGridFunction(ParFiniteElementSpace* pf, GridFunction* gf);
    ParGridFunction(ParMesh* pmesh, const GridFunction* gf, const int* partitioning = nullptr);
    ParGridFunction(ParMesh* pmesh, std::istream& input);
    ParGridFunction& operator=(const ParGridFunction&);
    ParGridFunction& operator=(double);
    ParGridFunction& operator=(const Vector&);
    ParFiniteElementSpace* ParFESpace() const;
    void SetSpace(FiniteElementSpace* f) override;
    void SetSpace(ParFiniteElementSpace* f);
    using GridFunction::MakeRef;
    void MakeRef(ParFiniteElementSpace* f, double* v);
    void MakeRef(ParFiniteElementSpace* f, Vector& v, int v_offset);
    void ExchangeFaceNbrData();
    Vector& FaceNbrData();
    const Vector& FaceNbrData() const;
    void ProjectCoefficient(Coefficient& coeff) override;
    using GridFunction::ProjectCoefficient;
};

class BilinearFormIntegrator {
protected:
    const IntegrationRule* IntRule;
public:
    BilinearFormIntegrator(const IntegrationRule* ir = nullptr);
    virtual ~BilinearFormIntegrator();
    virtual void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& Trans, DenseMatrix& elmat);
    virtual void AssembleElementMatrix2(const FiniteElement& trial_fe, const FiniteElement& test_fe, ElementTransformation& Trans, DenseMatrix& elmat);
    virtual void AssembleFaceMatrix(const FiniteElement& el1, const FiniteElement& el2, FaceElementTransformations& Trans, DenseMatrix& elmat);
    virtual void AssembleFaceMatrix(const FiniteElement& trial_face_fe, const FiniteElement& test_fe1, const FiniteElement& test_fe2, FaceElementTransformations& Trans, DenseMatrix& elmat);
    void SetIntRule(const IntegrationRule* ir);
    void SetIntegrationRule(const IntegrationRule& ir);
    const IntegrationRule* GetIntegrationRule() const;
};
using NonlinearFormIntegrator = BilinearFormIntegrator;
class MassIntegrator : public BilinearFormIntegrator {
public:
    MassIntegrator(const IntegrationRule* ir = nullptr);
    MassIntegrator(Coefficient& q, const IntegrationRule* ir = nullptr);
    static const IntegrationRule& GetRule(const FiniteElement&, const FiniteElement&, ElementTransformation&);
};
class DerivativeIntegrator : public BilinearFormIntegrator { public: DerivativeIntegrator(Coefficient& q, int i); };
class MixedScalarDerivativeIntegrator : public BilinearFormIntegrator { public: MixedScalarDerivativeIntegrator(); };
class InverseIntegrator : public BilinearFormIntegrator { public: InverseIntegrator(BilinearFormIntegrator* integ, int own_integ = 1); };
class TransposeIntegrator : public BilinearFormIntegrator { public: TransposeIntegrator(BilinearFormIntegrator* bfi_, int own_bfi_ = 1); };
class SumIntegrator : public BilinearFormIntegrator { public: SumIntegrator(int own = 1); void AddIntegrator(BilinearFormIntegrator*); };
class DGTraceIntegrator : public BilinearFormIntegrator { public: DGTraceIntegrator(VectorCoefficient& u, double a); DGTraceIntegrator(VectorCoefficient& u, double a, double b); };

class Matrix2 {};
class BilinearForm : public Matrix {
public:
    SparseMatrix* mat;
    FiniteElementSpace* fes;
    int extern_bfs;
    int precompute_sparsity;
    Array<BilinearFormIntegrator*> domain_integs;
    Array<Array<int>*> domain_integs_marker;
    Array<BilinearFormIntegrator*> boundary_integs;
    Array<Array<int>*> boundary_integs_marker;
    Array<BilinearFormIntegrator*> interior_face_integs;
    Array<BilinearFormIntegrator*> boundary_face_integs;
    Array<Array<int>*> boundary_face_integs_marker;
    Array<BilinearFormIntegrator*> internal_boundary_face_integs;
    Array<Array<int>*> internal_boundary_face_integs_marker;
    DenseMatrix elemmat;
    Array<int> vdofs;
    BilinearForm(FiniteElementSpace* f);
    BilinearForm(FiniteElementSpace* f, BilinearForm* bf, int ps = 0);
    int Size() const;
    double& Elem(int i, int j) override;
    const double& Elem(int i, int j) const override;
    void Mult(const Vector& x, Vector& y) const override;
    void FullMult(const Vector& x, Vector& y) const;
    void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override;
    void AllocateMatrix();
    void AddDomainIntegrator(BilinearFormIntegrator* bfi);
    void AddDomainIntegrator(BilinearFormIntegrator* bfi, Array<int>& elem_marker);
    void AddBoundaryIntegrator(BilinearFormIntegrator* bfi);
    void AddBoundaryIntegrator(BilinearFormIntegrator* bfi, Array<int>& bdr_marker);
    void AddInteriorFaceIntegrator(BilinearFormIntegrator* bfi);
    void AddInteriorFaceIntegrator(BilinearFormIntegrator* bfi, Array<int>& marker);
    void AddBdrFaceIntegrator(BilinearFormIntegrator* bfi);
    void AddBdrFaceIntegrator(BilinearFormIntegrator* bfi, Array<int>& bdr_marker);
    void AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* bfi);
    void AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* bfi, Array<int>& marker);
    void Assemble(int skip_zeros = 1);
    void Finalize(int skip_zeros = 1) override;
    const SparseMatrix& SpMat() const;
    SparseMatrix& SpMat();
    SparseMatrix* LoseMat();
    bool HasSpMat();
    FiniteElementSpace* GetFES();
    FiniteElementSpace* FESpace();
    const FiniteElementSpace* FESpace() const;
    Array<BilinearFormIntegrator*>* GetDBFI();
    Array<BilinearFormIntegrator*>* GetFBFI();
    Array<BilinearFormIntegrator*>* GetBFBFI();
    Array<Array<int>*>* GetBFBFI_Marker();
    Array<Array<int>*>* GetFBFI_Marker();
    void ComputeElementMatrix(int i, DenseMatrix& elmat);
    bool use_neighbour_dofs() const;
};
class ParBilinearForm : public BilinearForm {
public:
    ParFiniteElementSpace* pfes;
    bool keep_nbr_block;
    ParBilinearForm(ParFiniteElementSpace* pf);
    ParBilinearForm(ParFiniteElementSpace* pf, ParBilinearForm* bf);
    void KeepNbrBlock(bool knb = true);
    void Assemble(int skip_zeros = 1);
    void AssembleDiagonal(Vector&) const;
    HypreParMatrix* ParallelAssemble();
    HypreParMatrix* ParallelAssemble(SparseMatrix* m);
    ParFiniteElementSpace* ParFESpace() const;
};
class MixedBilinearForm : public Matrix {
public:
    MixedBilinearForm(FiniteElementSpace* tr_fes, FiniteElementSpace* te_fes);
    void AddDomainIntegrator(BilinearFormIntegrator* bfi);
    void Assemble(int skip_zeros = 1);
    const SparseMatrix& SpMat() const;
};

class LinearFormIntegrator {
protected:
    const IntegrationRule* IntRule;
public:
    LinearFormIntegrator(const IntegrationRule* ir = nullptr);
    virtual ~LinearFormIntegrator();
    virtual void AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& Tr, Vector& elvect) = 0;
    virtual void AssembleRHSElementVect(const FiniteElement& el, FaceElementTransformations& Tr, Vector& elvect);
    virtual void AssembleRHSElementVect(const FiniteElement& el1, const FiniteElement& el2, FaceElementTransformations& Tr, Vector& elvect);
    void SetIntRule(const IntegrationRule* ir);
};
class LinearForm : public Vector {
public:
    FiniteElementSpace* fes;
    int extern_lfs;
    Array<LinearFormIntegrator*> domain_integs;
    Array<LinearFormIntegrator*> boundary_integs;
    Array<Array<int>*> boundary_integs_marker;
    Array<LinearFormIntegrator*> boundary_face_integs;
    Array<Array<int>*> boundary_face_integs_marker;
    Array<LinearFormIntegrator*> interior_face_integs;
    Array<LinearFormIntegrator*> internal_boundary_face_integs;
    Array<Array<int>*> internal_boundary_face_integs_marker;
    LinearForm(FiniteElementSpace* f);
    LinearForm();
    LinearForm& operator=(double);
    LinearForm& operator=(const Vector&);
    FiniteElementSpace* FESpace();
    const FiniteElementSpace* FESpace() const;
    void AddDomainIntegrator(LinearFormIntegrator* lfi);
    void AddDomainIntegrator(LinearFormIntegrator* lfi, Array<int>&);
    void AddBoundaryIntegrator(LinearFormIntegrator* lfi);
    void AddBoundaryIntegrator(LinearFormIntegrator* lfi, Array<int>& bdr_attr_marker);
    void AddBdrFaceIntegrator(LinearFormIntegrator* lfi);
    void AddBdrFaceIntegrator(LinearFormIntegrator* lfi, Array<int>& bdr_attr_marker);
    void AddInteriorFaceIntegrator(LinearFormIntegrator* lfi);
    void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator* lfi);
    void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator* lfi, Array<int>& marker);
    void Assemble();
    double operator()(const GridFunction& gf) const;
};
class ParLinearForm : public LinearForm { public: ParLinearForm(ParFiniteElementSpace*); };

class ODESolver {
public:
    virtual ~ODESolver();
    virtual void Init(TimeDependentOperator& f_);
    virtual void Step(Vector& x, double& t, double& dt) = 0;
    virtual void Run(Vector& x, double& t, double& dt, double tf);
};
#define MFEM_STUB_ODE(NAME) class NAME : public ODESolver { public: NAME(); void Step(Vector& x, double& t, double& dt) override; };
MFEM_STUB_ODE(ForwardEulerSolver)
MFEM_STUB_ODE(RK2Solver)
MFEM_STUB_ODE(RK3SSPSolver)
MFEM_STUB_ODE(RK4Solver)
MFEM_STUB_ODE(RK6Solver)
MFEM_STUB_ODE(RK8Solver)
MFEM_STUB_ODE(BackwardEulerSolver)
MFEM_STUB_ODE(ImplicitMidpointSolver)
MFEM_STUB_ODE(TrapezoidalRuleSolver)
MFEM_STUB_ODE(SDIRK34Solver)
MFEM_STUB_ODE(SDIRK33Solver)
MFEM_STUB_ODE(ESDIRK32Solver)
MFEM_STUB_ODE(ESDIRK33Solver)
class SDIRK23Solver : public ODESolver { public: SDIRK23Solver(int gamma_opt = 1); void Step(Vector& x, double& t, double& dt) override; };

enum class VTKFormat { ASCII, BINARY, BINARY32 };
class DataCollection {
public:
    enum Format { SERIAL_FORMAT = 0, PARALLEL_FORMAT = 1 };
    enum { NO_ERROR = 0, READ_ERROR = 1, WRITE_ERROR = 2 };
    explicit DataCollection(const std::string& collection_name, Mesh* mesh_ = nullptr);
    virtual ~DataCollection();
    virtual void RegisterField(const std::string& field_name, GridFunction* gf);
    virtual void DeregisterField(const std::string&);
    GridFunction* GetField(const std::string&);
    bool HasField(const std::string&) const;
    const std::string& GetCollectionName() const;
    const std::string& GetPrefixPath() const;
    void SetPrefixPath(const std::string& prefix);
    virtual void SetMesh(Mesh* new_mesh);
    Mesh* GetMesh();
    void SetCycle(int c);
    void SetTime(double t);
    void SetTimeStep(double ts);
    int GetCycle() const;
    double GetTime() const;
    double GetTimeStep() const;
    void SetPrecision(int prec);
    void SetPadDigits(int);
    void SetPadDigitsCycle(int);
    void SetPadDigitsRank(int);
    virtual void SetFormat(int fmt);
    virtual void SaveMesh();
    virtual void SaveField(const std::string&);
    virtual void Save();
    virtual void Load(int cycle_ = 0);
    int Error() const;
protected:
    std::string name;
    std::string prefix_path;
    std::map<std::string, GridFunction*> field_map;
    Mesh* mesh;
    int cycle;
    double time;
    double time_step;
    bool serial;
    bool appendRankToFileName;
    int myid;
    int num_procs;
    int precision;
    int pad_digits_cycle;
    int pad_digits_rank;
    int format;
    int error;
    MPI_Comm m_comm;
    static int create_directory(const std::string& dir_name, const Mesh* mesh, int myid);
    std::string GetMeshShortFileName() const;
    std::string GetFieldFileName(const std::string&) const;
    std::string GetMeshFileName() const;
};
class VisItDataCollection : public DataCollection { public: VisItDataCollection(const std::string&, Mesh* = nullptr); };
class ParaViewDataCollection : public DataCollection {
public:
    ParaViewDataCollection(const std::string& collection_name, Mesh* mesh_ = nullptr);
    void SetLevelsOfDetail(int levels_of_detail_);
    void SetDataFormat(VTKFormat fmt);
    void SetHighOrderOutput(bool high_order_output_);
    void SetCompressionLevel(int);
    void SetCompression(bool);
    void UseRestartMode(bool restart_mode_);
    void Save() override;
};

class StopWatch { public: StopWatch(); void Clear(); void Start(); void Stop(); void Restart(); double RealTime(); double UserTime(); };
class Mpi {
public:
    static void Init(int& argc, char**& argv);
    static void Init();
    static void Finalize();
    static bool IsInitialized();
    static bool IsFinalized();
    static int WorldRank();
    static int WorldSize();
    static bool Root();
};
class Hypre { public: static void Init(); static void Finalize(); };
class OptionsParser {
public:
    OptionsParser(int argc, char* argv[]);
    void AddOption(bool* var, const char* a, const char* b, const char* c, const char* d, const char* e, bool required = false);
    void AddOption(int* var, const char* a, const char* b, const char* e, bool required = false);
    void AddOption(double* var, const char* a, const char* b, const char* e, bool required = false);
    void AddOption(const char** var, const char* a, const char* b, const char* e, bool required = false);
    void Parse();
    void ParseCheck(std::ostream& = mfem::out);
    bool Good() const;
    void PrintUsage(std::ostream&) const;
    void PrintOptions(std::ostream&) const;
};
class ofgzstream : public std::ofstream { public: ofgzstream(const std::string&, bool = false); };
class named_ifgzstream : public std::ifstream { public: named_ifgzstream(const std::string&); };
class socketstream : public std::iostream { public: socketstream(const char*, int); };
template <typename T> T AsConst(T);

}
