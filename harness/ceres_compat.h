// Ceres 2.2 renamed LocalParameterization to Manifold. This header gives the
// old names back so that the repository's own sources that the stock build has
// to leave out can be compiled unmodified.
#ifndef VERIF_CERES_COMPAT_H_
#define VERIF_CERES_COMPAT_H_
#include <memory>
#include "ceres/ceres.h"
#include "ceres/manifold.h"
#include "ceres/autodiff_manifold.h"
namespace ceres {
using LocalParameterization = Manifold;
using QuaternionParameterization = QuaternionManifold;
using SubsetParameterization = SubsetManifold;
template <typename F>
struct VerifPlusOnly {
  explicit VerifPlusOnly(F* f) : f_(f) {}
  VerifPlusOnly() : f_(new F) {}
  template <typename T>
  bool Plus(const T* x, const T* d, T* y) const { return (*f_)(x, d, y); }
  // Never used by the solver configurations in this repository.
  template <typename T>
  bool Minus(const T*, const T*, T*) const { return false; }
  std::shared_ptr<F> f_;
};
template <typename F, int kG, int kL>
class AutoDiffLocalParameterization : public Manifold {
 public:
  AutoDiffLocalParameterization() : f_(new F) {}
  explicit AutoDiffLocalParameterization(F* f) : f_(f) {}
  int AmbientSize() const override { return kG; }
  int TangentSize() const override { return kL; }
  bool Plus(const double* x, const double* d, double* y) const override {
    return (*f_)(x, d, y);
  }
  bool PlusJacobian(const double* x, double* jac) const override {
    using JetT = Jet<double, kL>;
    JetT xj[kG], dj[kL], yj[kG];
    for (int i = 0; i < kG; ++i) xj[i] = JetT(x[i]);
    for (int i = 0; i < kL; ++i) dj[i] = JetT(0.0, i);
    if (!(*f_)(xj, dj, yj)) return false;
    for (int i = 0; i < kG; ++i)
      for (int j = 0; j < kL; ++j) jac[i * kL + j] = yj[i].v[j];
    return true;
  }
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }

 private:
  std::unique_ptr<F> f_;
};
}  // namespace ceres
#define SetParameterization SetManifold
#endif
