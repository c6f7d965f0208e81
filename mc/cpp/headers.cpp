// Exposes the templates of the C++ headers so that check C32 can enumerate their behaviour.
// Every buffer handed to the code under test has guard zones: NaN around inputs, a sentinel around outputs.
#include <array>
#include <cmath>
#include <limits>
#include <utility>
#include <vector>
#include "lanczos.h"
#include "eigen_operators.h"
#include <pybind11/pybind11.h>
#include <pybind11/eigen.h>
#include <pybind11/stl.h>
namespace py = pybind11;
constexpr size_t G = 24;

template <class F> struct In {
  std::vector<F> b; size_t n;
  In(const std::vector<F>& x) : b(x.size() + 2 * G, std::numeric_limits<F>::quiet_NaN()), n(x.size()) { std::copy(x.begin(), x.end(), b.begin() + G); }
  F* p() { return b.data() + G; }
  std::vector<F> content() const { return std::vector<F>(b.begin() + G, b.begin() + G + n); }
  bool guards() const { for (size_t i = 0; i < G; ++i) if (!std::isnan(b[i]) || !std::isnan(b[G + n + i])) return false; return true; }
};
template <class F> struct Out {
  std::vector<F> b; size_t n;
  Out(size_t n_, F fill) : b(n_ + 2 * G, F(12345.5)), n(n_) { std::fill(b.begin() + G, b.begin() + G + n, fill); }
  F* p() { return b.data() + G; }
  std::vector<F> content() const { return std::vector<F>(b.begin() + G, b.begin() + G + n); }
  bool guards() const { for (size_t i = 0; i < G; ++i) if (b[i] != F(12345.5) || b[G + n + i] != F(12345.5)) return false; return true; }
};
// one call: (output, everything around the buffers and the input itself untouched)
template <class F, class Call> py::tuple one(const std::vector<F>& x, size_t no, Call f) {
  In<F> in(x); Out<F> out(no, F(-777.25));
  f(in.p(), out.p());
  auto c = in.content();
  bool same = true;
  for (size_t i = 0; i < x.size(); ++i) same = same && (c[i] == x[i] || (std::isnan(c[i]) && std::isnan(x[i])));
  return py::make_tuple(out.content(), in.guards() && out.guards() && same);
}
template <class F, class Op> py::tuple recur(const Op& A, const std::vector<F>& q, int deg, F rtol, int orth, size_t ncv, size_t rows, F fill) {
  In<F> v(q); Out<F> a(deg + 1, fill), b(deg + 1, fill), V(rows * ncv, fill);
  int k = lanczos_recurrence<F>(A, v.p(), deg, rtol, orth, a.p(), b.p(), V.p(), ncv);
  return py::make_tuple(k, a.content(), b.content(), V.content(), v.guards() && a.guards() && b.guards() && V.guards());
}
template <class F, class Op, class C> void common(C& c) {
  c.def("shape", [](const Op& s) { auto p = s.shape(); return std::make_pair(size_t(p.first), size_t(p.second)); });
  c.def("matvec", [](const Op& s, const std::vector<F>& x, size_t no) { return one<F>(x, no, [&](F* i, F* o) { s.matvec(i, o); }); });
  c.def("recur", &recur<F, Op>);
}
template <class F, class Op, class C> void adj(C& c) {
  c.def("rmatvec", [](const Op& s, const std::vector<F>& x, size_t no) { return one<F>(x, no, [&](F* i, F* o) { s.rmatvec(i, o); }); });
  c.def("matmat", [](const Op& s, const std::vector<F>& x, size_t no, size_t k) { return one<F>(x, no, [&](F* i, F* o) { s.matmat(i, o, k); }); });
}
template <class F> void bind(py::module& m, const std::string& sfx) {
  using D = DenseEigenLinearOperator<F>;
  using S = SparseEigenLinearOperator<F, false>;
  using Gr = SparseEigenLinearOperator<F, true>;
  using A = SparseEigenAffineOperator<F>;
  using SM = Eigen::SparseMatrix<F>;
  using DM = DenseMatrix<F>;
  auto d = py::class_<D>(m, ("Dense" + sfx).c_str()).def(py::init([](const DM& a) { DM t = a; auto r = std::make_unique<D>(t); t.setConstant(F(99)); return r; }));
  auto s = py::class_<S>(m, ("Sparse" + sfx).c_str()).def(py::init([](const SM& a) { SM t = a; auto r = std::make_unique<S>(t); t.coeffs() *= F(99); return r; }));
  auto g = py::class_<Gr>(m, ("Gram" + sfx).c_str()).def(py::init([](const SM& a) { SM t = a; auto r = std::make_unique<Gr>(t); t.coeffs() *= F(99); return r; }));
  auto f = py::class_<A>(m, ("Affine" + sfx).c_str()).def(py::init([](const SM& a, const SM& b) { SM t = a, u = b; auto r = std::make_unique<A>(t, u); t.coeffs() *= F(99); u.coeffs() *= F(99); return r; }));
  common<F, D>(d); common<F, S>(s); common<F, Gr>(g); common<F, A>(f);
  adj<F, D>(d); adj<F, S>(s); adj<F, Gr>(g);
  f.def("set", [](const A& o, F t) { o.set_parameter(t); });
  m.def(("orth" + sfx).c_str(), [](const std::vector<F>& v, const DM& U, int start, int p, bool rev) {
    In<F> in(v);
    Eigen::Map<Vector<F>> w(in.p(), v.size());
    const DM copy = U;
    orth_vector<F>(w, Eigen::Ref<const DM>(copy), start, p, rev);
    return py::make_tuple(in.content(), in.guards());
  });
  py::dict c;
  c["linear"] = LinearOperator<D> && LinearOperator<S> && LinearOperator<Gr> && LinearOperator<A>;
  c["adjoint"] = AdjointOperator<D> && AdjointOperator<S> && AdjointOperator<Gr>;
  c["matmat"] = SupportsMatrixMult<D> && SupportsMatrixMult<S> && SupportsMatrixMult<Gr>;
  c["affine"] = AffineOperator<A> && !AffineOperator<D> && !AffineOperator<S>;
  c["operator"] = Operator<D> && Operator<S> && Operator<Gr> && Operator<A>;
  c["type"] = std::string(TypeString<F>::value) == (sizeof(F) == 4 ? "float32" : "float64");
  m.attr(("concepts" + sfx).c_str()) = c;
}
PYBIND11_MODULE(_headers, m) {
  bind<double>(m, "8");
  bind<float>(m, "4");
  m.def("mod", [](int a, int b) { return mod(a, b); });
  m.def("param_deg", [](int d, size_t r, size_t c) { return param_deg(d, {r, c}); });
  m.def("param_ncv", [](int v, int d, size_t r, size_t c) { return param_ncv(v, d, {r, c}); });
  m.def("param_orth", [](int o, int d, int v, size_t r, size_t c) { return param_orth(o, d, v, {r, c}); });
}
