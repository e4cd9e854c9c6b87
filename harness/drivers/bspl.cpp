// A vector-valued B-spline, on its own or as the design variables of an optimisation problem.
#include "vt.hpp"
#include <aslam_bsplines/BSpline.hpp>
#include <aslam_splines/BSplineDesignVariable.hpp>
#include <aslam_splines/EuclideanBSplineDesignVariable.hpp>
#include <aslam_splines/BSplineMotionError.hpp>
#include <aslam_splines/SimpleSplineError.hpp>
#include <aslam_backend/backend/JacobianContainer.hpp>
#include <aslam_bsplines/BSplinePose.hpp>
#include <aslam_splines/BSplinePoseDesignVariable.hpp>
#include <aslam_backend_expressions/ScalarExpression.hpp>
#include <aslam_backend_expressions/Scalar.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerAnglesZYX.hpp>
#include <sm_kinematics/EulerAnglesZXY.h>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <memory>

using aslam_bsplines::BSpline;
using vt::Line; using vt::Out;
namespace ab = aslam::backend;

struct Curve {
  virtual ~Curve() {}
  virtual const BSpline& b() = 0;
  virtual BSpline* own() { return nullptr; }
  virtual void add(double t, const Eigen::VectorXd& p) = 0;
  virtual void add2(double t, const Eigen::VectorXd& p, double l) = 0;
  virtual void rm() = 0;
  virtual size_t n() { return 0; }
  virtual ab::DesignVariable* dv(size_t) { return nullptr; }
  virtual void expr(Out&, double, int, bool) {}
  virtual void motion(Out&, const Eigen::MatrixXd&, int, const std::vector<int>&) {}
  virtual void simple(Out&, double, int, const Eigen::VectorXd&) {}
  virtual const aslam_bsplines::BSplinePose* pose() { return nullptr; }
  virtual aslam_bsplines::BSplinePose* ownPose() { return nullptr; }
  virtual void addT(double, const Eigen::Matrix4d&) {}
  virtual void add2T(double, const Eigen::Matrix4d&, double) {}
};
struct Own : Curve {
  BSpline s;
  explicit Own(int k) : s(k) {}
  const BSpline& b() override { return s; }
  BSpline* own() override { return &s; }
  void add(double t, const Eigen::VectorXd& p) override { s.addCurveSegment(t, p); }
  void add2(double t, const Eigen::VectorXd& p, double l) override { s.addCurveSegment2(t, p, l); }
  void rm() override { s.removeCurveSegment(); }
};
static std::string ints(const Eigen::VectorXi& v) { return vt::ints(std::vector<int>(v.data(), v.data() + v.size())); }
static std::string join(const std::vector<std::string>& v) { return vt::list<std::string>(v, [](const std::string& s) { return s; }); }
static std::string dvIndex(Curve& c, const ab::DesignVariable* d) {
  for (size_t i = 0; i < c.n(); ++i) if (c.dv(i) == d) return std::to_string(i);
  return "-1";
}
static void jac(Out& o, Curve& c, ab::JacobianContainer& jc, const char* name) {
  std::vector<std::string> is, ms;
  for (auto it = jc.begin(); it != jc.end(); ++it) { is.push_back(dvIndex(c, it->first)); ms.push_back(vt::mat(it->second)); }
  o.put(std::string(name) + "i", join(is)).put(std::string(name) + "m", join(ms));
}
template <int D> struct Dvs : Curve {
  typedef aslam::splines::BSplineDesignVariable<D> T;
  std::unique_ptr<T> s;
  explicit Dvs(T* p) : s(p) {}
  const BSpline& b() override { return s->spline(); }
  void add(double t, const Eigen::VectorXd& p) override { s->addSegment(t, p); }
  void add2(double t, const Eigen::VectorXd& p, double l) override { s->addSegment2(t, p, l); }
  void rm() override { s->removeSegment(); }
  size_t n() override { return s->numDesignVariables(); }
  ab::DesignVariable* dv(size_t i) override { return s->designVariable(i); }
  void expr(Out& o, double t, int d, bool euclid) override {
    for (size_t i = 0; i < n(); ++i) { dv(i)->setActive(true); dv(i)->setBlockIndex(i); }
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(2, D);
    for (int i = 0; i < D; ++i) { A(0, i) = 1 + i; A(1, i) = 2 - 3 * i; }
    ab::JacobianContainer j1(D), j2(2);
    ab::DesignVariable::set_t set;
    aslam::splines::EuclideanBSplineDesignVariable* e = dynamic_cast<aslam::splines::EuclideanBSplineDesignVariable*>(s.get());
    if (euclid && e) {
      ab::EuclideanExpression x = e->toEuclideanExpression(t, d);
      o.v("x", x.toEuclidean()); x.evaluateJacobians(j1); x.evaluateJacobians(j2, A); x.getDesignVariables(set);
      o.v("x2", e->toEuclidean(t, d));
    } else {
      ab::VectorExpression<D> x = s->toExpression(t, d);
      o.v("x", x.toValue()); x.evaluateJacobians(j1); x.evaluateJacobians(j2, A); x.getDesignVariables(set);
      o.v("x2", x.evaluate());
    }
    jac(o, *this, j1, "j"); jac(o, *this, j2, "a");
    std::vector<std::string> ds, gs;
    for (auto p : set) ds.push_back(dvIndex(*this, p));
    for (auto p : s->getDesignVariables(t)) gs.push_back(dvIndex(*this, p));
    o.put("ds", join(ds)).put("gs", join(gs));
  }
  void motion(Out& o, const Eigen::MatrixXd& W, int order, const std::vector<int>& idx) override {
    std::vector<int> dims;
    int sum = 0, nact = 0;
    for (size_t i = 0; i < n(); ++i) { dv(i)->setActive(idx[i] >= 0); dv(i)->setBlockIndex(idx[i]); nact += idx[i] >= 0; }
    for (int i = 0; i < nact; ++i) dims.push_back(sum += D);
    ab::BSplineMotionError<T> e(s.get(), W, order);
    double err = e.evaluateError();
    o.d("e", err).m("Q", e.Q()).v("r", e.rhs());
    if (nact) {
      aslam_sparse_block_matrix::SparseBlockMatrix<Eigen::MatrixXd> H(dims, dims, true);
      Eigen::VectorXd rhs = Eigen::VectorXd::Zero(sum);
      e.buildHessian(H, rhs, false);
      o.m("H", Eigen::MatrixXd(H.toDense())).v("b", rhs);
    }
  }
  void simple(Out& o, double t, int d, const Eigen::VectorXd& y) override {
    for (size_t i = 0; i < n(); ++i) { dv(i)->setActive(true); dv(i)->setBlockIndex(i); }
    ab::VectorExpression<D> x = s->toExpression(t, d);
    Eigen::Matrix<double, D, 1> yy = y;
    ab::SimpleSplineError<T> e(s.get(), &x, yy, t);
    o.d("e", e.evaluateError());
    ab::JacobianContainer j(D);
    e.evaluateJacobians(j);
    jac(o, *this, j, "j");
  }
};

typedef aslam_bsplines::BSplinePose PoseSpline;
typedef aslam::splines::BSplinePoseDesignVariable PoseDv;
struct OwnPose : Curve {
  PoseSpline s;
  OwnPose(int k, sm::kinematics::RotationalKinematics::Ptr r) : s(k, r) {}
  const BSpline& b() override { return s; }
  BSpline* own() override { return &s; }
  const PoseSpline* pose() override { return &s; }
  PoseSpline* ownPose() override { return &s; }
  void add(double t, const Eigen::VectorXd& p) override { s.addCurveSegment(t, p); }
  void add2(double t, const Eigen::VectorXd& p, double l) override { s.addCurveSegment2(t, p, l); }
  void addT(double t, const Eigen::Matrix4d& T) override { s.addPoseSegment(t, T); }
  void add2T(double t, const Eigen::Matrix4d& T, double l) override { s.addPoseSegment2(t, T, l); }
  void rm() override { s.removeCurveSegment(); }
};
template <class E> static void value(Out& o, E& x);
template <> void value(Out& o, ab::TransformationExpression& x) { o.m("x", x.toTransformationMatrix()); }
template <> void value(Out& o, ab::RotationExpression& x) { o.m("x", x.toRotationMatrix()); }
template <> void value(Out& o, ab::EuclideanExpression& x) { o.m("x", x.toEuclidean()); }
template <class E> static void chain(E& x, ab::JacobianContainer& j, const Eigen::MatrixXd& A) { x.evaluateJacobians(j, A); }
static void chain(ab::RotationExpression& x, ab::JacobianContainer& j, const Eigen::MatrixXd& A) { x.root()->evaluateJacobians(j, A); }
struct DvsPose : Curve {
  std::unique_ptr<PoseDv> s;
  explicit DvsPose(const PoseSpline& p) : s(new PoseDv(p)) {}
  const BSpline& b() override { return s->spline(); }
  const PoseSpline* pose() override { return &s->spline(); }
  void add(double, const Eigen::VectorXd&) override { throw std::logic_error("not for poses"); }
  void add2(double, const Eigen::VectorXd&, double) override { throw std::logic_error("not for poses"); }
  void addT(double t, const Eigen::Matrix4d& T) override { s->addSegment(t, T); }
  void add2T(double t, const Eigen::Matrix4d& T, double l) override { s->addSegment2(t, T, l); }
  void rm() override { s->removeSegment(); }
  size_t n() override { return s->numDesignVariables(); }
  ab::DesignVariable* dv(size_t i) override { return s->designVariable(i); }
  template <class E> void node(Out& o, E x, int rows) {
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(2, rows);
    for (int i = 0; i < rows; ++i) { A(0, i) = 1 + i; A(1, i) = 2 - 3 * i; }
    for (size_t i = 0; i < n(); ++i) { dv(i)->setActive(true); dv(i)->setBlockIndex(i); }
    value(o, x);
    ab::JacobianContainer j1(rows), j2(2);
    ab::DesignVariable::set_t set;
    x.evaluateJacobians(j1); chain(x, j2, A); x.getDesignVariables(set);
    jac(o, *this, j1, "j"); jac(o, *this, j2, "a");
    std::vector<std::string> ds;
    for (auto p : set) ds.push_back(dvIndex(*this, p));
    o.put("ds", join(ds));
  }
  void pexpr(Out& o, const std::string& f, double t) {
    if (f == "T") node(o, s->transformation(t), 6);
    else if (f == "R") node(o, s->orientation(t), 3);
    else if (f == "p") node(o, s->position(t), 3);
    else if (f == "v") node(o, s->linearVelocity(t), 3);
    else if (f == "a") node(o, s->linearAcceleration(t), 3);
    else if (f == "ab") node(o, s->linearAccelerationBodyFrame(t), 3);
    else if (f == "w") node(o, s->angularVelocityBodyFrame(t), 3);
    else if (f == "wd") node(o, s->angularAccelerationBodyFrame(t), 3);
    else throw std::logic_error("unknown expression " + f);
    std::vector<std::string> gs;
    for (auto p : s->getDesignVariables(t)) gs.push_back(dvIndex(*this, p));
    o.put("gs", join(gs)).put("gi", ints(s->getActiveDesignVariableIndices(t)));
  }
  // an expression of the pose at a time that is itself a variable; its index in the lists is -1
  void toff(Out& o, double t0, double left, double right, double t1) {
    ab::Scalar time(t0);
    time.setActive(true); time.setBlockIndex(n());
    ab::TransformationExpression x = left || right ? s->transformationAtTime(time.toExpression(), left, right)
                                                   : s->transformationAtTime(time.toExpression());
    double d = t1 - t0;
    time.update(&d, 1);
    o.d("t", time.toScalar());
    node(o, x, 6);
  }
};
static sm::kinematics::RotationalKinematics::Ptr kinematics(const std::string& k) {
  using namespace sm::kinematics;
  typedef RotationalKinematics::Ptr P;
  if (k == "rv") return P(new RotationVector);
  if (k == "ypr") return P(new EulerAnglesYawPitchRoll);
  if (k == "zyx") return P(new EulerAnglesZYX);
  if (k == "zxy") return P(new EulerAnglesZXY);
  if (k == "rod") return P(new EulerRodriguez);
  throw std::logic_error("unknown kinematics " + k);
}

static void state(Out& o, Curve& c) {
  const BSpline& b = c.b();
  o.v("knots", b.knotVector()).m("c", Eigen::MatrixXd(b.coefficients().transpose()));
  o.i("nc", b.numVvCoefficients()).i("len", b.coefficientVectorLength()).i("nn", b.numCoefficients());
  o.i("ns", b.numValidTimeSegments());
  std::vector<std::string> dvs;
  for (size_t i = 0; i < c.n(); ++i) { Eigen::MatrixXd p; c.dv(i)->getParameters(p); dvs.push_back(vt::vec(p.col(0))); }
  o.put("dv", join(dvs));
}
template <class F> static void guarded(Out& o, const char* flag, F f) {
  try { f(); o.b(flag, true); } catch (const std::exception&) { o.b(flag, false); }
}

int main(int argc, char** argv) {
  std::shared_ptr<Curve> c;
  int order = 0;
  return vt::run(argc, argv, [&](Line& l) {
    std::string op = l.op;
    if (op == "begin") { Out("begin").s("id", l.w()); c.reset(); return; }
    bool T4 = op == "initT" || op == "addT" || op == "add2T";   // the points are poses
    if (T4) op.pop_back();
    Out o(op);
    auto change = [&](std::function<void()> f) { guarded(o, "ok", f); state(o, *c); };
    auto matc = [&]() { return Eigen::MatrixXd(l.m().transpose()); };   // one coefficient a row in the script
    if (op == "new") { order = l.i();
      if (l.more()) { std::string k = l.w(); o.s("kind", k); c = std::make_shared<OwnPose>(order, kinematics(k)); }
      else { o.s("kind", ""); c = std::make_shared<Own>(order); }
      const BSpline& b = c->b();
      o.i("order", b.splineOrder()).i("deg", b.polynomialDegree()).i("min", b.minimumKnotsRequired());
      std::vector<int> k, q;
      for (int i = 1; i < 6; ++i) { k.push_back(b.numKnotsRequired(i)); q.push_back(b.numCoefficientsRequired(i)); }
      o.put("kr", vt::ints(k)).put("cr", vt::ints(q)); state(o, *c); }
    else if (op == "dv") { int kind = l.i(); const BSpline b = c->b(); o.i("kind", kind);
      int D = b.coefficients().rows();
      if (c->pose()) { const PoseSpline p = *c->pose(); c = std::make_shared<DvsPose>(p); }
      else if (kind) c = std::make_shared<Dvs<3>>(new aslam::splines::EuclideanBSplineDesignVariable(b));
      else if (D == 1) c = std::make_shared<Dvs<1>>(new aslam::splines::BSplineDesignVariable<1>(b));
      else if (D == 2) c = std::make_shared<Dvs<2>>(new aslam::splines::BSplineDesignVariable<2>(b));
      else c = std::make_shared<Dvs<3>>(new aslam::splines::BSplineDesignVariable<3>(b));
      state(o, *c); }
    else if (op == "set") { int how = l.i(); Eigen::VectorXd k = l.v(); Eigen::MatrixXd m = matc(); o.i("how", how).v("K", k).m("C", Eigen::MatrixXd(m.transpose()));
      change([&] { if (how) c->own()->setKnotVectorAndCoefficients(k, m);
                   else c->own()->setKnotsAndCoefficients(std::vector<double>(k.data(), k.data() + k.size()), m); }); }
    else if (op == "setc") { Eigen::VectorXd v = l.v(); o.v("v", v); change([&] { c->own()->setCoefficientVector(v); }); }
    else if (op == "setm") { Eigen::MatrixXd m = matc(); o.m("C", Eigen::MatrixXd(m.transpose())); change([&] { c->own()->setCoefficientMatrix(m); }); }
    else if (op == "setl") { double t = l.d(); Eigen::VectorXd v = l.v(); o.d("t", t).v("v", v); change([&] { c->own()->setLocalCoefficientVector(t, v); }); }
    else if (op == "vv") { int i = l.i(); Eigen::VectorXd v = l.v(); o.i("i", i).v("v", v); change([&] { c->own()->vvCoefficientVector(i) = v; }); }
    else if (op == "dvset" || op == "dvup") { int i = l.i(); Eigen::VectorXd v = l.v(); o.i("i", i).v("v", v);
      change([&] { if (op == "dvset") { Eigen::MatrixXd m = v; c->dv(i)->setParameters(m); } else { c->dv(i)->setActive(true); c->dv(i)->update(v.data(), v.size()); } }); }
    else if (op == "dvrev") { int i = l.i(); o.i("i", i); change([&] { c->dv(i)->revertUpdate(); }); }
    else if (op == "init" && T4) { double a = l.d(), b = l.d(); Eigen::Matrix4d P = l.m(4, 4), Q = l.m(4, 4); PoseSpline* q = c->ownPose();
      o.d("a", a).d("z", b).v("p", q->transformationToCurveValue(P)).v("q", q->transformationToCurveValue(Q)).m("P4", P).m("Q4", Q);
      change([&] { q->initPoseSpline(a, b, P, Q); }); }
    else if (T4) { double t = l.d(); Eigen::Matrix4d P = l.m(4, 4); o.d("t", t).v("p", c->pose()->transformationToCurveValue(P)).m("P4", P);
      if (op == "add") change([&] { c->addT(t, P); });
      else { double lam = l.d(); o.d("lam", lam); change([&] { c->add2T(t, P, lam); }); } }
    else if (op == "init") { double a = l.d(), b = l.d(); Eigen::VectorXd p = l.v(), q = l.v(); o.d("a", a).d("z", b).v("p", p).v("q", q);
      change([&] { c->own()->initSpline(a, b, p, q); }); }
    else if (op == "fit") { std::string f = l.w(); Eigen::VectorXd t = l.v(); Eigen::MatrixXd P = matc(); double lam = l.d();
      o.s("f", f).v("t", t).m("P", Eigen::MatrixXd(P.transpose())).d("lam", lam);
      if (f == "knots") { Eigen::VectorXd k = l.v(); o.v("K", k); change([&] { PoseSpline* q = c->ownPose();
          if (q) q->initPoseSplineSparseKnots(t, P, k, lam); else c->own()->initSplineSparseKnots(t, P, k, lam); }); }
      else { int n = l.i(); o.i("n", n);
        change([&] { BSpline* b = c->own(); PoseSpline* q = c->ownPose();
          if (q) { if (f == "2") q->initPoseSpline2(t, P, n, lam); else if (f == "3") q->initPoseSpline3(t, P, n, lam); else q->initPoseSplineSparse(t, P, n, lam); }
          else if (f == "2") b->initSpline2(t, P, n, lam); else if (f == "3") b->initSpline3(t, P, n, lam); else b->initSplineSparse(t, P, n, lam); }); } }
    else if (op == "const") { double a = l.d(), z = l.d(); int n = l.i(); Eigen::VectorXd p = l.v(); o.d("a", a).d("z", z).i("n", n).v("p", p);
      change([&] { c->own()->initConstantSpline(a, z, n, p); }); }
    else if (op == "add") { double t = l.d(); Eigen::VectorXd p = l.v(); o.d("t", t).v("p", p); change([&] { c->add(t, p); }); }
    else if (op == "add2") { double t = l.d(); Eigen::VectorXd p = l.v(); double lam = l.d(); o.d("t", t).v("p", p).d("lam", lam); change([&] { c->add2(t, p, lam); }); }
    else if (op == "rm") change([&] { c->rm(); });
    else if (op == "span") guarded(o, "ok", [&] { const BSpline& b = c->b(); double a = b.t_min(), z = b.t_max();
      o.d("a", a).d("z", z).d("a2", b.timeInterval().first).d("z2", b.timeInterval().second); });
    else if (op == "at") { double t = l.d(); int d = l.i(); const BSpline& b = c->b(); o.d("t", t).i("d", d);
      guarded(o, "ok", [&] { o.v("x", b.evalD(t, d));
        if (d == 0) o.v("x0", b.eval(t));
        Eigen::MatrixXd J; Eigen::VectorXi ci;
        o.v("x1", b.evalDAndJacobian(t, d, &J, &ci)); o.m("J", J).put("ci", ints(ci));
        auto pr = b.evalDAndJacobian(t, d); o.v("x2", pr.first).m("J2", pr.second);
        o.m("Phi", b.Phi(t, d)).m("Phi2", b.localBasisMatrix(t, d)).v("u", b.u(t, d)).m("U", b.U(t, d)); }); }
    else if (op == "loc") { double t = l.d(); const BSpline& b = c->b(); o.d("t", t);
      guarded(o, "ok", [&] { o.i("seg", b.segmentIndex(t)).m("lm", Eigen::MatrixXd(b.localCoefficientMatrix(t).transpose())).v("lv", b.localCoefficientVector(t));
        o.put("li", ints(b.localCoefficientVectorIndices(t))).put("lvv", ints(b.localVvCoefficientVectorIndices(t)));
        o.v("bi", b.getLocalBiVector(t)).v("cb", b.getLocalCumulativeBiVector(t));
        Eigen::VectorXd g = b.getBiVector(t), h = b.getCumulativeBiVector(t); o.v("gb", g).v("gc", h); }); }
    else if (op == "seg") { int i = l.i(); const BSpline& b = c->b(); o.i("i", i);
      guarded(o, "ok", [&] { auto ti = b.timeInterval(i); o.d("a", ti.first).d("z", ti.second).v("sc", b.segmentCoefficientVector(i));
        o.put("si", ints(b.segmentCoefficientVectorIndices(i))).put("sv", ints(b.segmentVvCoefficientVectorIndices(i)));
        o.m("B", b.basisMatrix(i)).m("V", b.Vi(i)).m("D", b.Dii(i)).m("DD", b.Di(i)).m("M", b.Mi(i)); }); }
    else if (op == "vvget") { int i = l.i(); const BSpline& b = c->b(); o.i("i", i); guarded(o, "ok", [&] { o.v("x", Eigen::VectorXd(b.vvCoefficientVector(i))); }); }
    else if (op == "int") { double a = l.d(), z = l.d(); const BSpline& b = c->b(); o.d("a", a).d("z", z); guarded(o, "ok", [&] { o.v("x", b.evalIntegral(a, z)).v("x2", b.evalI(a, z)); }); }
    else if (op == "quad") { int i = l.i(), d = l.i(); Eigen::MatrixXd W = l.m(); const BSpline& b = c->b(); o.i("i", i).i("d", d).m("W", W);
      guarded(o, "ok", [&] { o.m("Q", b.segmentQuadraticIntegral(W, i, d)).m("QD", b.segmentQuadraticIntegralDiag(W.diagonal(), i, d)).m("R", b.segmentIntegral(i, W, d)); }); }
    else if (op == "curve") { int d = l.i(); Eigen::MatrixXd W = l.m(); const BSpline& b = c->b(); o.i("d", d).m("W", W);
      guarded(o, "ok", [&] { o.m("Q", b.curveQuadraticIntegral(W, d)).m("QD", b.curveQuadraticIntegralDiag(W.diagonal(), d));
        o.m("S", Eigen::MatrixXd(b.curveQuadraticIntegralSparse(W, d).toDense())).m("SD", Eigen::MatrixXd(b.curveQuadraticIntegralDiagSparse(W.diagonal(), d).toDense())); }); }
    else if (op == "expr") { double t = l.d(); int d = l.i(), e = l.i(); o.d("t", t).i("d", d); guarded(o, "ok", [&] { c->expr(o, t, d, e); }); }
    else if (op == "motion") { int d = l.i(); Eigen::MatrixXd W = l.m(); std::vector<int> idx; while (l.more()) idx.push_back(l.i());
      o.i("d", d).m("W", W).put("idx", vt::ints(idx)); guarded(o, "ok", [&] { c->motion(o, W, d, idx); }); }
    else if (op == "simple") { double t = l.d(); int d = l.i(); Eigen::VectorXd y = l.v(); o.d("t", t).i("d", d).v("y", y); guarded(o, "ok", [&] { c->simple(o, t, d, y); }); }
    else if (op == "pose") { double t = l.d(); const PoseSpline& b = *c->pose(); o.d("t", t);
      guarded(o, "ok", [&] {
        Eigen::MatrixXd J; Eigen::VectorXi ci; std::vector<std::string> is;
        auto keep = [&](const char* n) { o.m(n, J); is.push_back(ints(ci)); J.resize(0, 0); ci.resize(0); };
        o.m("T", b.transformation(t)).m("T1", b.transformationAndJacobian(t, &J, &ci)); keep("JT");
        o.m("I", b.inverseTransformation(t)).m("I1", b.inverseTransformationAndJacobian(t, &J, &ci)); keep("JI");
        o.m("C", b.orientation(t)).m("C1", b.orientationAndJacobian(t, &J, &ci)); keep("JC");
        o.m("D", b.inverseOrientation(t)).m("D1", b.inverseOrientationAndJacobian(t, &J, &ci)); keep("JD");
        o.v("p", b.position(t)).v("v", b.linearVelocity(t)).v("vb", b.linearVelocityBodyFrame(t));
        o.v("a", b.linearAcceleration(t)).v("ab", b.linearAccelerationBodyFrame(t)).v("a1", b.linearAccelerationAndJacobian(t, &J, &ci)); keep("Ja");
        o.v("w", b.angularVelocity(t)).v("w1", b.angularVelocityAndJacobian(t, &J, &ci)); keep("Jw");
        o.v("wb", b.angularVelocityBodyFrame(t)).v("wb1", b.angularVelocityBodyFrameAndJacobian(t, &J, &ci)); keep("Jwb");
        Eigen::Vector4d x(1, -2, .5, 1); o.v("x", x).v("Tx", b.transformVectorAndJacobian(t, x, &J, &ci)); keep("Jx");
        o.put("ci", join(is));
      }); }
    else if (op == "angacc") { double t = l.d(); const PoseSpline& b = *c->pose(); o.d("t", t);
      guarded(o, "ok", [&] { Eigen::MatrixXd J; Eigen::VectorXi ci;
        o.v("b", b.angularAccelerationBodyFrame(t)).v("b1", b.angularAccelerationBodyFrameAndJacobian(t, &J, &ci)).m("Jb", J).put("cb", ints(ci));
        o.v("w1", b.angularAccelerationAndJacobian(t, &J, &ci)).m("Jw", J).put("cw", ints(ci)); }); }
    else if (op == "tcv") { Eigen::VectorXd v = l.v(); o.v("v", v);
      Eigen::MatrixXd J; Eigen::Matrix4d T = c->pose()->curveValueToTransformation(v);
      o.m("T", T).m("T1", c->pose()->curveValueToTransformationAndJacobian(v, &J)).m("J", J).v("back", c->pose()->transformationToCurveValue(T)); }
    else if (op == "pexpr") { std::string f = l.w(); double t = l.d(); o.s("f", f).d("t", t);
      guarded(o, "ok", [&] { dynamic_cast<DvsPose&>(*c).pexpr(o, f, t); }); }
    else if (op == "toff") { double t0 = l.d(), a = l.d(), b = l.d(), t1 = l.d(); o.d("t0", t0).d("L", a).d("R", b);
      guarded(o, "ok", [&] { dynamic_cast<DvsPose&>(*c).toff(o, t0, a, b, t1); }); }
    else throw std::logic_error("unknown op " + op);
  });
}
