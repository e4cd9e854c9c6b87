// Design variables and expression graphs of aslam_backend_expressions.
// Nodes are numbered from 1 in the order in which they are made.
#include "vt.hpp"
#include <aslam_backend_expressions/DesignVariableMappedVector.hpp>
#include <aslam_backend_expressions/DesignVariableVector.hpp>
#include <aslam_backend_expressions/ErrorTermEuclidean.hpp>
#include <aslam_backend_expressions/ErrorTermTransformation.hpp>
#include <aslam_backend_expressions/EuclideanDirection.hpp>
#include <aslam_backend_expressions/EuclideanExpression.hpp>
#include <aslam_backend_expressions/EuclideanPoint.hpp>
#include <aslam_backend_expressions/HomogeneousExpression.hpp>
#include <aslam_backend_expressions/HomogeneousPoint.hpp>
#include <aslam_backend_expressions/MappedEuclideanPoint.hpp>
#include <aslam_backend_expressions/MappedHomogeneousPoint.hpp>
#include <aslam_backend_expressions/MappedRotationQuaternion.hpp>
#include <aslam_backend_expressions/MapTransformation.hpp>
#include <aslam_backend_expressions/MatrixBasic.hpp>
#include <aslam_backend_expressions/MatrixExpression.hpp>
#include <aslam_backend_expressions/RotationExpression.hpp>
#include <aslam_backend_expressions/RotationQuaternion.hpp>
#include <aslam_backend_expressions/Scalar.hpp>
#include <aslam_backend_expressions/ScalarExpression.hpp>
#include <aslam_backend_expressions/TransformationBasic.hpp>
#include <aslam_backend_expressions/TransformationExpression.hpp>
#include <aslam_backend_expressions/Vector2RotationQuaternionExpressionAdapter.hpp>
#include <aslam_backend_expressions/VectorExpression.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <memory>

using namespace aslam::backend;
template <class T> using P = boost::shared_ptr<T>;

struct Node {
  char kind = 0;  // s e r t h m v(3) u(4)
  std::shared_ptr<ScalarExpression> s;
  std::shared_ptr<EuclideanExpression> e;
  std::shared_ptr<RotationExpression> r;
  std::shared_ptr<TransformationExpression> t;
  std::shared_ptr<HomogeneousExpression> h;
  std::shared_ptr<MatrixExpression> m;
  std::shared_ptr<VectorExpression<3>> v;
  std::shared_ptr<VectorExpression<1>> w;
  std::shared_ptr<VectorExpression<4>> u;
};
template <class T> std::shared_ptr<T> cp(const T& x) { return std::make_shared<T>(x); }
static Node N(const ScalarExpression& x) { Node n; n.kind = 's'; n.s = cp(x); return n; }
static Node N(const EuclideanExpression& x) { Node n; n.kind = 'e'; n.e = cp(x); return n; }
static Node N(const RotationExpression& x) { Node n; n.kind = 'r'; n.r = cp(x); return n; }
static Node N(const TransformationExpression& x) { Node n; n.kind = 't'; n.t = cp(x); return n; }
static Node N(const HomogeneousExpression& x) { Node n; n.kind = 'h'; n.h = cp(x); return n; }
static Node N(const MatrixExpression& x) { Node n; n.kind = 'm'; n.m = cp(x); return n; }
static Node N(const VectorExpression<3>& x) { Node n; n.kind = 'v'; n.v = cp(x); return n; }
static Node N(const VectorExpression<4>& x) { Node n; n.kind = 'u'; n.u = cp(x); return n; }
static Node N(const VectorExpression<1>& x) { Node n; n.kind = 'w'; n.w = cp(x); return n; }

struct World {
  std::vector<DesignVariable*> dv;
  std::vector<Node> node;
  std::vector<std::shared_ptr<void>> keep;
  std::vector<double*> mem;
  ~World() { node.clear(); keep.clear(); for (auto m : mem) delete[] m; }
  template <class T> P<T> own(T* p) { P<T> s(p); keep.push_back(std::shared_ptr<void>(p, [s](void*) {})); return s; }
  double* store(const Eigen::VectorXd& x) { double* p = new double[x.size()]; mem.push_back(p); Eigen::Map<Eigen::VectorXd>(p, x.size()) = x; return p; }
};
static std::unique_ptr<World> w;

static DesignVariable* add(DesignVariable* d) {
  d->setActive(true);
  d->setBlockIndex((int)w->dv.size());
  w->dv.push_back(d);
  return d;
}
static std::string params(DesignVariable* d) {
  Eigen::MatrixXd p;
  d->getParameters(p);
  return vt::mat(p);
}
static std::string value(Node& n) {
  switch (n.kind) {
    case 's': return vt::num(n.s->toScalar());
    case 'e': return vt::vec(n.e->toEuclidean());
    case 'r': return vt::mat(n.r->toRotationMatrix());
    case 't': return vt::mat(n.t->toTransformationMatrix());
    case 'h': return vt::vec(n.h->toHomogeneous());
    case 'm': return vt::mat(n.m->toMatrix3x3());
    case 'v': return vt::vec(n.v->evaluate());
    case 'w': return vt::vec(n.w->evaluate());
    case 'u': return vt::vec(n.u->evaluate());
  }
  throw std::logic_error("script: kind");
}
static int rows(char k) { return k == 's' || k == 'w' ? 1 : k == 't' ? 6 : k == 'h' || k == 'u' ? 4 : 3; }
static void jac(Node& n, JacobianContainer& J, const Eigen::MatrixXd* M) {
  switch (n.kind) {
    case 's': M ? n.s->evaluateJacobians(J, *M) : n.s->evaluateJacobians(J); break;
    case 'e': M ? n.e->evaluateJacobians(J, *M) : n.e->evaluateJacobians(J); break;
    case 'r': M ? n.r->root()->evaluateJacobians(J, *M) : n.r->evaluateJacobians(J); break;
    case 't': M ? n.t->evaluateJacobians(J, *M) : n.t->evaluateJacobians(J); break;
    case 'h': M ? n.h->evaluateJacobians(J, *M) : n.h->evaluateJacobians(J); break;
    case 'v': M ? n.v->evaluateJacobians(J, *M) : n.v->evaluateJacobians(J); break;
    case 'w': M ? n.w->evaluateJacobians(J, *M) : n.w->evaluateJacobians(J); break;
    case 'u': M ? n.u->evaluateJacobians(J, *M) : n.u->evaluateJacobians(J); break;
    default: throw std::logic_error("script: no Jacobian of a matrix");
  }
}
static std::string jacs(JacobianContainer& J) {
  std::string o = "[";
  for (size_t k = 0; k < w->dv.size(); ++k) {
    o += k ? "," : "";
    bool has = false;
    for (auto it = J.begin(); it != J.end(); ++it) if (it->first == w->dv[k]) { o += vt::mat(it->second); has = true; }
    if (!has) o += "\"none\"";
  }
  return o + "]";
}
static std::string dvs(Node& n) {
  DesignVariable::set_t S;
  switch (n.kind) {
    case 's': n.s->getDesignVariables(S); break;
    case 'e': n.e->getDesignVariables(S); break;
    case 'r': n.r->getDesignVariables(S); break;
    case 't': n.t->getDesignVariables(S); break;
    case 'h': n.h->getDesignVariables(S); break;
    case 'm': n.m->getDesignVariables(S); break;
    case 'v': n.v->getDesignVariables(S); break;
    case 'w': n.w->getDesignVariables(S); break;
    case 'u': n.u->getDesignVariables(S); break;
  }
  std::vector<int> ids;
  for (size_t k = 0; k < w->dv.size(); ++k) if (S.count(w->dv[k])) ids.push_back((int)k + 1);
  return vt::ints(ids);
}

static void op(vt::Line& l) {
  if (l.op == "begin") {
    w.reset(new World);
    vt::Out("begin").s("id", l.rest());
    return;
  }
  World& W = *w;
  if (l.op == "dv") {
    std::string k = l.w();
    vt::Out o("dv");
    o.s("kind", k);
    std::string pat = "[]";
    DesignVariable* d = 0;
    Node n;
    if (k == "scalar") { auto p = W.own(new Scalar(l.d())); d = add(p.get()); n = N(p->toExpression()); }
    else if (k == "point") { auto p = W.own(new EuclideanPoint(l.v(3))); d = add(p.get()); n = N(p->toExpression()); }
    else if (k == "mpoint") { auto p = W.own(new MappedEuclideanPoint(W.store(l.v(3)))); d = add(p.get()); n = N(p->toExpression()); }
    else if (k == "dir") { auto p = W.own(new EuclideanDirection(l.v(3))); d = add(p.get()); n = N(p->toExpression()); }
    else if (k == "rot") { auto p = W.own(new RotationQuaternion(Eigen::Vector4d(l.v(4)))); d = add(p.get()); n = N(p->toExpression()); }
    else if (k == "mrot") { auto p = W.own(new MappedRotationQuaternion(W.store(l.v(4)))); d = add(p.get()); n = N(p->toExpression()); }
    else if (k == "hom") { auto p = W.own(new HomogeneousPoint(l.v(4))); d = add(p.get()); n = N(p->toExpression()); }
    else if (k == "mhom") { auto p = W.own(new MappedHomogeneousPoint(W.store(l.v(4)))); d = add(p.get()); n = N(p->toExpression()); }
    else if (k == "vec3") { auto p = W.own(new DesignVariableVector<3>(Eigen::Vector3d(l.v(3)))); d = add(p.get()); n = N(p->toExpression()); }
    else if (k == "vec1") { auto p = W.own(new DesignVariableVector<1>(Eigen::Matrix<double, 1, 1>(l.v(1)))); d = add(p.get()); n = N(p->toExpression()); }
    else if (k == "vec4") { auto p = W.own(new DesignVariableVector<4>(Eigen::Vector4d(l.v(4)))); d = add(p.get()); n = N(p->toExpression()); }
    else if (k == "mvec3") { auto p = W.own(new DesignVariableMappedVector<3>(W.store(l.v(3)))); d = add(p.get()); n = N(p->toExpression()); }
    else if (k == "matb") {
      Eigen::MatrixXd A = l.m(3, 3), U = l.m(3, 3);
      Eigen::Matrix3i u = U.cast<int>();
      auto p = W.own(u.sum() == 9 ? new MatrixBasic(A) : new MatrixBasic(A, u));
      d = add(p.get()); n = N(p->toExpression());
      pat = vt::mat(U);
    } else throw std::logic_error("script: dv " + k);
    W.node.push_back(n);
    o.put("p", params(d)).put("pat", pat).i("n", d->minimalDimensions()).put("val", value(n));
  } else if (l.op == "node") {
    std::string k = l.w();
    vt::Out o("node");
    o.s("f", k);
    std::vector<int> a;
    Node n;
    std::string c = "[]";
    auto arg = [&]() -> Node& { int i = (int)l.i(); a.push_back(i); return W.node.at(i - 1); };
    if (k == "const_s") { double x = l.d(); c = vt::num(x); n = N(ScalarExpression(x)); }
    else if (k == "const_e") { Eigen::Vector3d x = l.v(3); c = vt::vec(x); n = N(EuclideanExpression(x)); }
    else if (k == "const_h") { Eigen::Vector4d x = l.v(4); c = vt::vec(x); n = N(HomogeneousExpression(x)); }
    else if (k == "const_h3") { Eigen::Vector3d x = l.v(3); c = vt::vec(x); n = N(HomogeneousExpression(x)); }
    else if (k == "const_t") { Eigen::Matrix4d x = l.m(4, 4); c = vt::mat(x); n = N(TransformationExpression(x)); }
    else if (k == "s_add") { Node& x = arg(); Node& y = arg(); n = N(*x.s + *y.s); }
    else if (k == "s_sub") { Node& x = arg(); Node& y = arg(); n = N(*x.s - *y.s); }
    else if (k == "s_mul") { Node& x = arg(); Node& y = arg(); n = N(*x.s * *y.s); }
    else if (k == "s_div") { Node& x = arg(); Node& y = arg(); n = N(*x.s / *y.s); }
    else if (k == "s_addc") { Node& x = arg(); double y = l.d(); c = vt::num(y); n = N(*x.s + y); }
    else if (k == "s_subc") { Node& x = arg(); double y = l.d(); c = vt::num(y); n = N(*x.s - y); }
    else if (k == "s_mulc") { Node& x = arg(); double y = l.d(); c = vt::num(y); n = N(*x.s * y); }
    else if (k == "s_divc") { Node& x = arg(); double y = l.d(); c = vt::num(y); n = N(*x.s / y); }
    else if (k == "e_add") { Node& x = arg(); Node& y = arg(); n = N(*x.e + *y.e); }
    else if (k == "e_sub") { Node& x = arg(); Node& y = arg(); n = N(*x.e - *y.e); }
    else if (k == "e_cross") { Node& x = arg(); Node& y = arg(); n = N(x.e->cross(*y.e)); }
    else if (k == "e_elem") { Node& x = arg(); Node& y = arg(); n = N(x.e->elementwiseMultiply(*y.e)); }
    else if (k == "e_neg") { Node& x = arg(); n = N(-*x.e); }
    else if (k == "e_subc") { Node& x = arg(); Eigen::Vector3d y = l.v(3); c = vt::vec(y); n = N(*x.e - y); }
    else if (k == "e_scale") { Node& x = arg(); Node& y = arg(); n = N(*x.e * *y.s); }
    else if (k == "e_hom") { Node& x = arg(); n = N(x.e->toHomogeneousExpression()); }
    else if (k == "h_euc") { Node& x = arg(); n = N(x.h->toEuclideanExpression()); }
    else if (k == "r_mul") { Node& x = arg(); Node& y = arg(); n = N(*x.r * *y.r); }
    else if (k == "r_inv") { Node& x = arg(); n = N(x.r->inverse()); }
    else if (k == "r_rot") { Node& x = arg(); Node& y = arg(); n = N(*x.r * *y.e); }
    else if (k == "r_rv") { Node& x = arg(); n = N(x.r->toParameters(sm::kinematics::RotationalKinematics::Ptr(new sm::kinematics::RotationVector))); }
    else if (k == "r_ypr") { Node& x = arg(); n = N(x.r->toParameters(sm::kinematics::RotationalKinematics::Ptr(new sm::kinematics::EulerAnglesYawPitchRoll))); }
    else if (k == "r_rod") { Node& x = arg(); n = N(x.r->toParameters(sm::kinematics::RotationalKinematics::Ptr(new sm::kinematics::EulerRodriguez))); }
    else if (k == "t_make") { Node& x = arg(); Node& y = arg(); n = N(TransformationExpression(*x.r, *y.e)); }
    else if (k == "t_mul") { Node& x = arg(); Node& y = arg(); n = N(*x.t * *y.t); }
    else if (k == "t_inv") { Node& x = arg(); n = N(x.t->inverse()); }
    else if (k == "t_rot") { Node& x = arg(); n = N(x.t->toRotationExpression()); }
    else if (k == "t_pos") { Node& x = arg(); n = N(x.t->toEuclideanExpression()); }
    else if (k == "t_hom") { Node& x = arg(); Node& y = arg(); n = N(*x.t * *y.h); }
    else if (k == "m_mul") { Node& x = arg(); Node& y = arg(); n = N(*x.m * *y.e); }
    else if (k == "v_euc") { Node& x = arg(); n = N(EuclideanExpression(*x.v)); }
    else if (k == "w_sca") { Node& x = arg(); n = N(x.w->toScalarExpression()); }
    else if (k == "u_rot") { Node& x = arg(); n = N(Vector2RotationQuaternionExpressionAdapter::adapt(*x.u)); }
    else throw std::logic_error("script: node " + k);
    W.node.push_back(n);
    o.put("a", vt::ints(a)).put("c", c).put("dvs", dvs(n));
  } else if (l.op == "eval") {
    int i = (int)l.i();
    int r = (int)l.i();
    Node& n = W.node.at(i - 1);
    std::string v = value(n);
    if (n.kind == 'm') { vt::Out("eval").i("i", i).put("v", v).put("J", "[]").put("M", "[]").put("JM", "[]").put("J2", "[]"); return; }
    Eigen::MatrixXd M = l.m(r, rows(n.kind));
    JacobianContainer J(rows(n.kind)), JM(r), J2(rows(n.kind));
    jac(n, J, 0);
    jac(n, JM, &M);
    std::string v2 = value(n);
    jac(n, J2, 0);
    vt::Out("eval").i("i", i).put("v", v).b("same", v == v2).put("J", jacs(J)).put("M", vt::mat(M)).put("JM", jacs(JM)).b("again", jacs(J2) == jacs(J));
  } else if (l.op == "update") {
    int i = (int)l.i();
    DesignVariable* d = W.dv.at(i - 1);
    Eigen::VectorXd x = l.v();
    d->update(x.data(), (int)x.size());
    vt::Out("update").i("i", i).v("d", x).put("p", params(d));
  } else if (l.op == "revert") {
    int i = (int)l.i();
    W.dv.at(i - 1)->revertUpdate();
    vt::Out("revert").i("i", i).put("p", params(W.dv.at(i - 1)));
  } else if (l.op == "set") {
    int i = (int)l.i();
    Eigen::MatrixXd x = l.m();
    W.dv.at(i - 1)->setParameters(x);
    vt::Out("set").i("i", i).m("x", x).put("p", params(W.dv.at(i - 1)));
  } else if (l.op == "active") {
    int i = (int)l.i();
    bool a = l.i();
    W.dv.at(i - 1)->setActive(a);
    vt::Out("active").i("i", i).b("a", a);
  } else if (l.op == "mindiff") {  // the update that leads from x to the variable
    int i = (int)l.i();
    Eigen::MatrixXd x = l.m(), J;
    if (x.size() == 0) W.dv.at(i - 1)->getParameters(x);  // from where it is
    Eigen::VectorXd d, d2;
    W.dv.at(i - 1)->minimalDifference(x, d);
    W.dv.at(i - 1)->minimalDifferenceAndJacobian(x, d2, J);
    vt::Out("mindiff").i("i", i).m("x", x).v("d", d).b("same", d == d2).m("J", J);
  } else if (l.op == "err") {  // the stock error terms of a Euclidean and of a transformation expression
    int i = (int)l.i();
    Node& n = W.node.at(i - 1);
    std::unique_ptr<ErrorTerm> et;
    vt::Out o("err");
    o.i("i", i);
    if (n.kind == 'e') {
      Eigen::Vector3d x = l.v(3);
      o.v("x", x);
      et.reset(new ErrorTermEuclidean(*n.e, x, 1.0));
    } else {
      Eigen::MatrixXd T = l.m(4, 4);
      o.m("x", T);
      sm::kinematics::Transformation p((Eigen::Matrix4d(T)));
      o.m("xT", p.T());
      et.reset(new ErrorTermTransformation(*n.t, p, 1.0, 1.0));
    }
    double c = et->evaluateError();
    Eigen::VectorXd e = et->vsError();
    JacobianContainer J(et->dimension());
    et->evaluateJacobians(J);
    o.d("c", c).v("e", e).put("J", jacs(J));
  } else {
    throw std::logic_error("script: " + l.op);
  }
}

#ifndef EXPR_ONLY
int main(int argc, char** argv) { return vt::run(argc, argv, op); }
#endif
