// Design variables and error terms with polynomial residuals, whose values,
// Jacobians and costs a specification can compute exactly:
//   e_r = c_r + sum_k A_rk x_k + Q_rk x_k^2  +  p_r x_first x_last
// over the stacked coordinates x of the term's design variables.
#pragma once
#include "vt.hpp"
#include <limits>
#include <map>
#include <memory>
#include <boost/make_shared.hpp>
#include <aslam_backend/backend/DesignVariable.hpp>
#include <aslam_backend/backend/ErrorTerm.hpp>
#include <aslam_backend/backend/ErrorTermDs.hpp>
#include <aslam_backend/backend/MEstimatorPolicies.hpp>

namespace poly {
using namespace vt;
namespace ab = aslam::backend;

struct Dv : public ab::DesignVariable {
  std::string name;
  Eigen::VectorXd x, before;
  int updates = 0, reverts = 0;
  double q = 0;                       // curvature of the minimal difference
  Dv(const std::string& n, const Eigen::VectorXd& v) : name(n), x(v), before(v) {}
  void updateImplementation(const double* dp, int size) override {
    before = x;
    ++updates;
    for (int i = 0; i < size; ++i) x(i) += dp[i];
  }
  void revertUpdateImplementation() override { ++reverts; x = before; }
  int minimalDimensionsImplementation() const override { return (int)x.size(); }
  void getParametersImplementation(Eigen::MatrixXd& v) const override { v = x; }
  void setParametersImplementation(const Eigen::MatrixXd& v) override { before = x; x = v; }
  void minimalDifferenceImplementation(const Eigen::MatrixXd& h, Eigen::VectorXd& o) const override {
    Eigen::VectorXd d = x - h;
    o = d + q * d.cwiseProduct(d);
  }
  void minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& h, Eigen::VectorXd& o, Eigen::MatrixXd& j) const override {
    Eigen::VectorXd d = x - h;
    o = d + q * d.cwiseProduct(d);
    j = Eigen::MatrixXd::Identity(x.size(), x.size());
    j.diagonal() += 2 * q * d;
  }
};

struct Terms {
  Eigen::VectorXd c, p;
  Eigen::MatrixXd A, Q;
  double bound = -1;       // residual undefined (nan) beyond |x_first| > bound
  std::vector<Dv*> dvs;
  int fails = 0;           // 1: evaluating the residual throws, 2: the Jacobians
  Eigen::VectorXd stack() const {
    int n = 0;
    for (auto d : dvs) n += d->x.size();
    Eigen::VectorXd s(n);
    n = 0;
    for (auto d : dvs) { s.segment(n, d->x.size()) = d->x; n += d->x.size(); }
    return s;
  }
  Eigen::VectorXd value() const {
    if (fails == 1) throw std::runtime_error("no residual");
    Eigen::VectorXd s = stack();
    Eigen::VectorXd e = c + A * s + Q * s.cwiseProduct(s) + p * s(0) * s(s.size() - 1);
    if (bound >= 0 && std::fabs(s(0)) > bound) e.setConstant(std::numeric_limits<double>::quiet_NaN());
    return e;
  }
  void jacobians(ab::JacobianContainer& out) const {
    if (fails == 2) throw std::runtime_error("no Jacobian");
    Eigen::VectorXd s = stack();
    Eigen::MatrixXd J = A + 2 * Q * s.asDiagonal();
    J.col(0) += p * s(s.size() - 1);
    J.col(s.size() - 1) += p * s(0);
    int n = 0;
    for (auto d : dvs) {
      if (d->isActive()) out.add(d, J.middleCols(n, d->x.size()));
      n += d->x.size();
    }
  }
};

// what the driver asks of an error term beyond the public interface
struct Access {
  Terms t;
  virtual ~Access() {}
  virtual ab::ErrorTerm& et() = 0;
  virtual Eigen::MatrixXd sqrtR() const = 0;
  virtual Eigen::VectorXd err() const = 0;
  virtual void weigh(const std::string& kind, const Eigen::MatrixXd& m) = 0;
};

template <int N> struct EtF : public ab::ErrorTermFs<N>, public Access {
  explicit EtF(const Terms& tt) { t = tt; std::vector<ab::DesignVariable*> v(t.dvs.begin(), t.dvs.end()); this->setDesignVariables(v); }
  double evaluateErrorImplementation() override { this->setError(t.value()); return this->evaluateChiSquaredError(); }
  void evaluateJacobiansImplementation(ab::JacobianContainer& o) const override { t.jacobians(o); }
  ab::ErrorTerm& et() override { return *this; }
  Eigen::MatrixXd sqrtR() const override { return this->sqrtInvR(); }
  Eigen::VectorXd err() const override { return this->error(); }
  void weigh(const std::string& k, const Eigen::MatrixXd& m) override {
    if (k == "R") this->setInvR(m); else if (k == "S") this->setSqrtInvR(m); else if (k == "V") this->vsSetInvR(m);
  }
};
struct EtD : public ab::ErrorTermDs, public Access {
  explicit EtD(const Terms& tt) : ErrorTermDs((int)tt.c.size()) { t = tt; std::vector<ab::DesignVariable*> v(t.dvs.begin(), t.dvs.end()); setDesignVariables(v); }
  double evaluateErrorImplementation() override { setError(t.value()); return evaluateChiSquaredError(); }
  void evaluateJacobiansImplementation(ab::JacobianContainer& o) const override { t.jacobians(o); }
  ab::ErrorTerm& et() override { return *this; }
  Eigen::MatrixXd sqrtR() const override { return sqrtInvR(); }
  Eigen::VectorXd err() const override { return error(); }
  void weigh(const std::string& k, const Eigen::MatrixXd& m) override {
    if (k == "R") setInvR(m); else if (k == "S") setSqrtInvR(m); else if (k == "V") vsSetInvR(m);
  }
};

inline boost::shared_ptr<ab::MEstimator> mest(const std::string& k, const std::vector<double>& p) {
  if (k == "gm") return boost::make_shared<ab::GemanMcClureMEstimator>(p[0]);
  if (k == "cauchy") return boost::make_shared<ab::CauchyMEstimator>(p[0]);
  if (k == "huber") return boost::make_shared<ab::HuberMEstimator>(p[0]);
  if (k == "bz") return boost::make_shared<ab::BlakeZissermanMEstimator>((size_t)p[0], p[1], p[2]);
  return boost::make_shared<ab::NoMEstimator>();
}

struct Problem {
  std::vector<std::unique_ptr<Dv>> dvs;
  std::vector<boost::shared_ptr<Access>> ets;
  Dv* dv(const std::string& n) const {
    for (auto& d : dvs) if (d->name == n) return d.get();
    throw std::logic_error("script: no design variable " + n);
  }
  std::string state() const {
    std::string o = "[";
    for (auto& d : dvs) o += (o.size() > 1 ? "," : "") + vec(d->x);
    return o + "]";
  }
  // dv name scaling active n x..
  void addDv(Line& L) {
    std::string n = L.w();
    double s = L.d();
    bool a = L.i();
    Eigen::VectorXd x = L.v();
    dvs.emplace_back(new Dv(n, x));
    dvs.back()->setScaling(s);
    dvs.back()->setActive(a);
    Out("dv").s("name", n).d("s", dvs.back()->scaling()).b("active", dvs.back()->isActive()).v("x", x);
  }
  // et kind dim weighting [matrix] estimator nparams params.. bound ndv name.. { c A.. Q.. p } per row
  void addEt(Line& L) {
    std::string kind = L.w();
    int dim = L.i();
    std::string wk = L.w();
    Eigen::MatrixXd W = Eigen::MatrixXd::Identity(dim, dim);
    if (wk != "I") W = L.m(dim, dim);
    std::string ek = L.w();
    std::vector<double> ep;
    for (int n = L.i(), k = 0; k < n; ++k) ep.push_back(L.d());
    Terms t;
    t.bound = L.d();
    int nx = 0;
    std::vector<int> ids;
    for (int n = L.i(), k = 0; k < n; ++k) {
      t.dvs.push_back(dv(L.w()));
      nx += t.dvs.back()->x.size();
      for (size_t j = 0; j < dvs.size(); ++j) if (dvs[j].get() == t.dvs.back()) ids.push_back(j);
    }
    t.c.resize(dim); t.p.resize(dim); t.A.resize(dim, nx); t.Q.resize(dim, nx);
    for (int r = 0; r < dim; ++r) {
      t.c(r) = L.d();
      for (int k = 0; k < nx; ++k) t.A(r, k) = L.d();
      for (int k = 0; k < nx; ++k) t.Q(r, k) = L.d();
      t.p(r) = L.d();
    }
    boost::shared_ptr<Access> a;
    if (kind == "D") a.reset(new EtD(t));
    else if (dim == 1) a.reset(new EtF<1>(t));
    else if (dim == 2) a.reset(new EtF<2>(t));
    else a.reset(new EtF<3>(t));
    if (wk != "I") a->weigh(wk, W);
    if (ek != "none") a->et().setMEstimatorPolicy(mest(ek, ep));
    ets.push_back(a);
    Out("et").s("kind", kind).i("dim", dim).s("wk", wk).m("W", W).m("L", a->sqrtR()).s("mk", ek).v("mp", ep).d("bound", t.bound)
        .put("dvs", ints(ids)).v("c", t.c).m("A", t.A).m("Q", t.Q).v("p", t.p);
  }
};
}  // namespace poly
