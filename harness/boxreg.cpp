// C33: initial guess and alignment step of box registration
#include <Eigen/Dense>
#include "rs.h"
static double gU[9], gV[9];  // singular vectors (U, V) or eigenvectors (V) of the input, column by column
static int gD = 0;
#ifdef RSYM_SYMBOLIC
// The decompositions of Eigen are replaced by their specification: the factors chosen by the harness when they
// decompose the given matrix (as it is or transposed); otherwise the answer is arbitrary and only the replay decides.
static double elem(const double* A, int r, int c) { return A[c * gD + r]; }
template <typename M> static bool decomposes(const M& m, const double* A, const double* B, bool svd) {
  bool ok = true;
  double dg[3];
  for (int i = 0; i < gD; i++) for (int j = 0; j < gD; j++) {
    double x = 0;
    for (int r = 0; r < gD; r++) { double y = 0; for (int c = 0; c < gD; c++) y += m(r, c) * elem(B, c, j); x += elem(A, r, i) * y; }
    if (i == j) dg[i] = x; else ok &= (x <= 1e-3) & (-x <= 1e-3);
  }
  for (int i = 0; i < gD; i++) {
    if (svd) ok &= dg[i] >= -1e-3;
    if (i) ok &= svd ? dg[i] <= dg[i - 1] : dg[i] >= dg[i - 1];
  }
  return ok;
}
template <typename M, typename A> static void fill(M& m, const A* a) { for (int r = 0; r < gD; r++) for (int c = 0; c < gD; c++) m(r, c) = a[c * gD + r]; }
namespace Eigen {
#define SVD_MODEL(T) \
  template <> class JacobiSVD<T, ColPivHouseholderQRPreconditioner> { \
   public: \
    typedef T MatrixType; \
    typedef Matrix<T::Scalar, T::RowsAtCompileTime, 1> SingularValuesType; \
    T u, v; SingularValuesType s; \
    JacobiSVD() {} \
    JacobiSVD(const T& m, unsigned int = 0) { compute(m); } \
    JacobiSVD& compute(const T& m, unsigned int = 0) { \
      u.resize(gD, gD); v.resize(gD, gD); s.resize(gD); \
      bool direct = decomposes(m, gU, gV, true), swapped = !direct & decomposes(m, gV, gU, true); \
      fill(u, swapped ? gV : gU); fill(v, swapped ? gU : gV); \
      for (int i = 0; i < gD; i++) { double x = 0; for (int r = 0; r < gD; r++) for (int c = 0; c < gD; c++) x += u(r, i) * m(r, c) * v(c, i); s(i) = x; } \
      return *this; \
    } \
    const T& matrixU() const { return u; } \
    const T& matrixV() const { return v; } \
    const SingularValuesType& singularValues() const { return s; } \
  };
SVD_MODEL(MatrixXd) SVD_MODEL(MatrixXf) SVD_MODEL(Matrix2d) SVD_MODEL(Matrix3d) SVD_MODEL(Matrix2f) SVD_MODEL(Matrix3f)
#define EIG_MODEL(T) \
  template <> class SelfAdjointEigenSolver<T> { \
   public: \
    typedef Matrix<T::Scalar, T::RowsAtCompileTime, 1> RealVectorType; \
    T v; RealVectorType s; \
    SelfAdjointEigenSolver() {} \
    SelfAdjointEigenSolver(const T& m, int = 0) { compute(m); } \
    SelfAdjointEigenSolver& compute(const T& m, int = 0) { \
      v.resize(gD, gD); s.resize(gD); \
      if (!decomposes(m, gV, gV, false)) rs_reached("undetermined decomposition"); \
      fill(v, gV); \
      for (int i = 0; i < gD; i++) { double x = 0; for (int r = 0; r < gD; r++) for (int c = 0; c < gD; c++) x += v(r, i) * m(r, c) * v(c, i); s(i) = x; } \
      return *this; \
    } \
    SelfAdjointEigenSolver& computeDirect(const T& m, int = 0) { return compute(m); } \
    const T& eigenvectors() const { return v; } \
    const RealVectorType& eigenvalues() const { return s; } \
    ComputationInfo info() const { return Success; } \
  };
EIG_MODEL(MatrixXd) EIG_MODEL(MatrixXf) EIG_MODEL(Matrix2d) EIG_MODEL(Matrix3d) EIG_MODEL(Matrix2f) EIG_MODEL(Matrix3f)
}  // namespace Eigen
#endif
#include <rofl/geometry/box_registration.h>
using namespace rofl;
static bool near(double a, double b, double tol) { return (a - b <= tol) & (b - a <= tol); }
// some orthogonal matrices: odd numbers are reflections
static void ortho(int k, int D, double* A) {
  const double T[4][2] = {{1, 0}, {0.6, 0.8}, {0.28, -0.96}, {-0.8, 0.6}};
  for (int i = 0; i < 9; i++) A[i] = 0;
  for (int i = 0; i < D; i++) A[i * D + i] = 1;
  int a = k % 1000 / 2;
  for (int ax = 0; ax < (D == 2 ? 1 : 3); ax++, a /= 4) {
    double c = T[a % 4][0], s = T[a % 4][1];
    int p = ax == 2 ? 1 : 0, q = ax == 0 ? 1 : 2;
    for (int j = 0; j < D; j++) { double x = A[j * D + p], y = A[j * D + q]; A[j * D + p] = c * x - s * y; A[j * D + q] = s * x + c * y; }
  }
  if (k & 1) for (int r = 0; r < D; r++) A[r] = -A[r];
  for (int j = 0; j < k / 1000; j++) for (int r = 0; r < D; r++) { double x = A[r]; for (int c = 0; c + 1 < D; c++) A[c * D + r] = A[(c + 1) * D + r]; A[(D - 1) * D + r] = x; }
}
static double det(const double* A, int D) {
  if (D == 2) return A[0] * A[3] - A[1] * A[2];
  return A[0] * (A[4] * A[8] - A[5] * A[7]) - A[3] * (A[1] * A[8] - A[2] * A[7]) + A[6] * (A[1] * A[5] - A[2] * A[4]);
}
static double rd(const char* n, double a, double b) { return rs_real(n, a, b); }
static float rf(const char* n, float a, float b) { return rs_realf(n, a, b); }
template <typename S, int D> static void step(S (*in)(const char*, S, S), double tol) {
  typedef BoxRegistration<S, D> B;
  int n = (int)rs_param("n", D == 2 ? 3 : 5), ku = (int)rs_param("u", 0), kw = (int)rs_param("w", ku), kq = (int)rs_param("q", 0);
  static const int sg[6][3] = {{1, 1, 1}, {1, -1, -1}, {-1, 1, -1}, {-1, -1, 1}, {-1, -1, -1}, {1, 1, -1}};
  gD = D;
  double Q[9], W[9];
  ortho(kq, D, Q);  // rotation or reflection of the current transformation
  ortho(ku, D, gU); ortho(kw, D, W);
  for (int j = 0; j < D; j++) for (int r = 0; r < D; r++) { gV[j * D + r] = 0; for (int e = 0; e < D; e++) gV[j * D + r] += Q[e * D + r] * W[j * D + e]; }
  B* box = new B;
  typename B::Point dim;
  for (int d = 0; d < D; d++) dim(d) = (S)(2 + 2 * d);
  box->setDimension(dim);
  typename B::Transform tr = B::Transform::Identity();
  double t0[3];
  for (int d = 0; d < D; d++) { tr.translation()(d) = in("t", -10, 10); t0[d] = tr.translation()(d); for (int e = 0; e < D; e++) tr.linear()(d, e) = (S)Q[e * D + d]; }
  // the points of the cloud are beyond one corner of the box each, which is the point of the box associated
  typename B::VectorPoint cloud;
  double m[6][3], c[6][3], mm[3] = {0, 0, 0}, mc[3] = {0, 0, 0};
  bool ok = true;
  for (int i = 0; i < n; i++) {
    typename B::Point p;
    for (int d = 0; d < D; d++) { p(d) = in("p", -30, 30); c[i][d] = p(d); m[i][d] = sg[i][d] * (1.0 + d); mm[d] += m[i][d] / n; mc[d] += c[i][d] / n; }
    for (int d = 0; d < D; d++) { double x = 0; for (int e = 0; e < D; e++) x += Q[d * D + e] * (c[i][e] - t0[e]); ok &= sg[i][d] * x >= 1.1 + d; }
    cloud.push_back(p);
  }
  double C[3][3], dg[3] = {0, 0, 0};
  for (int r = 0; r < D; r++) for (int q = 0; q < D; q++) { C[r][q] = 0; for (int i = 0; i < n; i++) C[r][q] += (m[i][r] - mm[r]) * c[i][q]; }
  for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) {
    double x = 0;
    for (int r = 0; r < D; r++) for (int q = 0; q < D; q++) x += gU[i * D + r] * gV[j * D + q] * C[r][q];
    if (i == j) { dg[i] = x; ok &= x >= 1; } else ok &= near(x, 0, tol * 0.1);
  }
  for (int i = 1; i < D; i++) ok &= dg[i - 1] >= dg[i] + 1;
  rs_assume(ok);
  box->computeTransform(cloud, tr);
  rs_reached("step");
  double R[9], t[3], best = 0, got = 0;
  for (int r = 0; r < D; r++) { t[r] = tr.translation()(r); rs_observe_d("t", t[r]); for (int q = 0; q < D; q++) { R[q * D + r] = tr.linear()(r, q); rs_observe_d("R", R[q * D + r]); } }
  for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) { double x = 0; for (int r = 0; r < D; r++) x += R[i * D + r] * R[j * D + r]; rs_check(near(x, i == j, tol), "the linear part is orthonormal"); }
  rs_check(near(det(R, D), 1, tol), "the linear part is a rotation");
  double sgn = det(gU, D) * det(gV, D) > 0 ? 1 : -1;
  for (int i = 0; i < D; i++) best += i == D - 1 ? sgn * dg[i] : dg[i];
  for (int r = 0; r < D; r++) for (int q = 0; q < D; q++) got += R[q * D + r] * C[q][r];
  rs_check(got >= best - 20 * tol, "no rotation brings the associated points of the box closer to the cloud");
  for (int r = 0; r < D; r++) { double x = mc[r]; for (int q = 0; q < D; q++) x -= R[q * D + r] * mm[q]; rs_check(near(t[r], x, tol), "the translation matches the centroids"); }
  for (int q = 0; q <= D; q++) rs_check(near(tr.matrix()(D, q), q == D, 1e-12), "the transformation is affine");
  delete box;
}
RS_ENTRY(step_d2) { step<double, 2>(rd, 1e-4); }
RS_ENTRY(step_d3) { step<double, 3>(rd, 1e-4); }
RS_ENTRY(step_f2) { step<float, 2>(rf, 1e-2); }
RS_ENTRY(step_f3) { step<float, 3>(rf, 1e-2); }
template <typename S, int D> static void init(S (*in)(const char*, S, S), double tol) {
  typedef BoxRegistration<S, D> B;
  int n = (int)rs_param("n", 2 * D), kv = (int)rs_param("v", 2), perm = (int)rs_param("perm", 0);
  gD = D;
  ortho(kv, D, gV);
  B* box = new B;
  typename B::Point dim, t;
  for (int d = 0; d < D; d++) { dim(d) = in("dim", (S)0.1, 10); t(d) = in("t", -10, 10); }
  for (int d = 0; d < D; d++) for (int e = 0; e < d; e++) rs_assume((dim(d) - dim(e) >= 0.01) | (dim(e) - dim(d) >= 0.01));
  box->setDimension(dim);
  typename B::VectorPoint cloud;
  // pairs of points at distance k + 1 from the centre along the k-th axis
  for (int i = 0; i < n; i++) {
    int k = (i / 2 + perm) % D;
    double a = (i & 1 ? -1 : 1) * (k + 1.0);
    typename B::Point p;
    for (int d = 0; d < D; d++) p(d) = (S)(t(d) + (n < 2 ? 0 : a * gV[k * D + d]));
    cloud.push_back(p);
  }
  typename B::Transform tr = B::Transform::Identity();
  tr.translation()(0) = 77; tr.linear()(0, 0) = 55;
  box->estimateInitTranform(cloud, tr);
  rs_reached("init");
  double A[9];
  for (int r = 0; r < D; r++) for (int q = 0; q < D; q++) A[q * D + r] = tr.linear()(r, q);
  if (n < 2) {
    for (int r = 0; r < D; r++) { rs_check(near(tr.translation()(r), 0, 0), "no initial translation with less than two points"); for (int q = 0; q < D; q++) rs_check(near(A[q * D + r], q == r, 0), "no initial rotation with less than two points"); }
    delete box;
    return;
  }
  for (int r = 0; r < D; r++) { rs_observe_d("t", tr.translation()(r)); rs_check(near(tr.translation()(r), t(r), tol), "the centre of the box goes to the centroid of the cloud"); }
  for (int q = 0; q < D; q++) {
    int rank = 0;
    for (int e = 0; e < D; e++) rank += dim(e) < dim(q);
    double x = 0;
    bool any = false;
    for (int k = 0; k < D; k++) {
      bool plus = true, minus = true;
      for (int r = 0; r < D; r++) { plus &= near(A[q * D + r], gV[k * D + r], tol); minus &= near(A[q * D + r], -gV[k * D + r], tol); }
      any |= (rank == k) & (plus | minus);
    }
    rs_check(any, "the sides of the box are along the directions of the cloud, longer sides along larger variance");
  }
  for (int q = 0; q <= D; q++) rs_check(near(tr.matrix()(D, q), q == D, 1e-12), "the transformation is affine");
  delete box;
}
RS_ENTRY(init_d2) { init<double, 2>(rd, 1e-4); }
RS_ENTRY(init_d3) { init<double, 3>(rd, 1e-4); }
RS_ENTRY(init_f2) { init<float, 2>(rf, 1e-2); }
RS_ENTRY(init_f3) { init<float, 3>(rf, 1e-2); }
