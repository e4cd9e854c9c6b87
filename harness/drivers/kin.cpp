// Rotations, transformations and uncertain geometry.
//
//   f NAME n  r c values ...   calls a function on n matrices
//   set R KIND matrices        a register of a kind: T U (un/certain transformation), h p (un/certain homogeneous
//                              point), v (uncertain vector), s (uncertain scalar)
//   reg NAME R A B matrices    an operation on registers A and B, result in R
#include "vt.hpp"
#include <map>
#include <memory>
#include <set>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerAnglesZXY.h>
#include <sm_kinematics/EulerAnglesZYX.hpp>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <sm_kinematics/UncertainTransformation.hpp>
#include <sm_kinematics/UncertainHomogeneousPoint.hpp>
#include <sm_kinematics/UncertainVector.hpp>
#include <sm_kinematics/homogeneous_coordinates.hpp>
#include <sm_kinematics/quaternion_algebra.hpp>
#include <sm_kinematics/rotations.hpp>
#include <sm_kinematics/three_point_methods.hpp>
#include <sm_kinematics/transformations.hpp>
using namespace vt;
using namespace sm::kinematics;
typedef Eigen::MatrixXd M;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector4d V4;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix4d M4;
typedef std::vector<M> Ms;
typedef std::function<Ms(const Ms&)> Fn;

M sc(double x) { return M::Constant(1, 1, x); }
std::string mats(const Ms& v) { return list<M>(v, [](const M& m) { return mat(m); }); }

template <class E> void euler(std::map<std::string, Fn>& F, const std::string& n) {
  F[n + "_p2R"] = [](const Ms& x) { E e; M3 S; M3 C = e.parametersToRotationMatrix(x[0], &S); M3 D = e.parametersToRotationMatrix(x[0]); return Ms{C, S, D, e.parametersToSMatrix(x[0])}; };
  F[n + "_R2p"] = [](const Ms& x) { E e; return Ms{e.rotationMatrixToParameters(x[0])}; };
  F[n + "_av"] = [](const Ms& x) { E e; Eigen::Matrix<double, 3, 6> J; J.setConstant(77); V3 w = e.angularVelocityAndJacobian(x[0], x[1], &J); V3 u = e.angularVelocityAndJacobian(x[0], x[1], 0); return Ms{w, J, u}; };
}

std::map<std::string, Fn> table() {
  std::map<std::string, Fn> F;
#define DEF(n, ...) F[#n] = [](const Ms& x) { return Ms{__VA_ARGS__}; }
  DEF(q2r, quat2r(x[0]));
  DEF(r2q, r2quat(x[0]));
  DEF(a2q, axisAngle2quat(x[0]), qexp(x[0]));
  DEF(q2a, quat2AxisAngle(V4(x[0])), qlog(x[0]));
  DEF(qplus, qplus(x[0], x[1]), quatPlus(x[0]) * x[1]);
  DEF(qoplus, qoplus(x[0], x[1]), quatOPlus(x[0]) * x[1]);
  F["qinv"] = [](const Ms& x) { V4 q = x[0]; invertQuat(q); return Ms{quatInv(x[0]), q, qeps(V4(x[0])), sc(qeta(V4(x[0]))), quatIdentity()}; };
  DEF(qrot, quatRotate(x[0], x[1]));
  DEF(qslerp, qslerp(x[0], x[1], x[2](0)));
  DEF(lerp, lerp(x[0], x[1], x[2](0)));
  DEF(qjac, quatJacobian(x[0]), quatInvS(x[0]));
  DEF(qS, quatS(x[0]));
  DEF(qupd, updateQuat(x[0], x[1]));
  DEF(expd, expDiffMat(V3(x[0])));
  DEF(logd, logDiffMat(V3(x[0])));
  DEF(qexpj, quatExpJacobian(V3(x[0])));
  DEF(qlogj, quatLogJacobian2(V4(x[0])));
  DEF(qlogj1, quatLogJacobian(V4(x[0])));
  DEF(rx, Rx(x[0](0)), Cx(x[0](0)));
  DEF(ry, Ry(x[0](0)), Cy(x[0](0)));
  DEF(rz, Rz(x[0](0)), Cz(x[0](0)));
  DEF(rph2R, rph2R(V3(x[0])), rph2R(x[0](0), x[0](1), x[0](2)));
  DEF(R2rph, R2rph(x[0]));
  DEF(rph2C, rph2C(V3(x[0])), rph2C(x[0](0), x[0](1), x[0](2)));
  DEF(C2rph, C2rph(M3(x[0])));
  DEF(cross, crossMx(V3(x[0])), crossMx(x[0](0), x[0](1), x[0](2)), crossMx(Eigen::VectorXd(x[0])));
  DEF(aa2R, axisAngle2R(V3(x[0])), axisAngle2R(x[0](0), x[0](1), x[0](2)));
  DEF(aa2R4, axisAngle2R(x[0](0), x[1](0), x[1](1), x[1](2)));
  DEF(R2aa, R2AxisAngle(x[0]));
  DEF(amod, sc(angleMod(x[0](0))));
  DEF(deg, sc(deg2rad(x[0](0))), sc(rad2deg(x[0](0))));
  DEF(rt2T, rt2Transform(x[0], x[1]), transform2C(rt2Transform(x[0], x[1])), transform2rho(rt2Transform(x[0], x[1])), transform2rhoHomogeneous(rt2Transform(x[0], x[1])));
  DEF(boxp, boxPlus(V6(x[0])));
  DEF(boxm, boxMinus(V4(x[0])));
  DEF(boxt, boxTimes(M4(x[0])));
  DEF(Tinv, inverseTransform(x[0]));
  DEF(T2e, fromTEuler(x[0]));
  DEF(e2T, toTEuler(V6(x[0])), toTEuler(x[0](0), x[0](1), x[0](2), x[0](3), x[0](4), x[0](5)));
  F["Tjac"] = [](const Ms& x) { V4 v; Eigen::Matrix<double, 4, 6> B; transformationAndJacobian(x[0], x[1], v, B); return Ms{v, B}; };
  F["Tijac"] = [](const Ms& x) { V4 v; Eigen::Matrix<double, 4, 6> B; inverseTransformationAndJacobian(x[0], x[1], v, B); return Ms{v, B}; };
  F["hom"] = [](const Ms& x) { Eigen::Matrix<double, 4, 3> J; V4 h = toHomogeneous(x[0], &J); return Ms{h, J, toHomogeneousJacobian(x[0]), toHomogeneous(x[0])}; };
  F["euc"] = [](const Ms& x) { Eigen::Matrix<double, 3, 4> J; V3 p = fromHomogeneous(x[0], &J); return Ms{p, J, fromHomogeneousJacobian(x[0]), fromHomogeneous(x[0])}; };
  DEF(homc, toHomogeneousColumns(x[0]));
  DEF(eucc, fromHomogeneousColumns(x[0]));
  F["norm"] = [](const Ms& x) { Eigen::Matrix4d J; V4 n = normalizeAndJacobian<4>(V4(x[0]), J); return Ms{n, J, normalize<4>(V4(x[0]))}; };
  DEF(hplus, toHomogeneousPlus(x[0]), toHomogeneousMinus(x[0]));
  DEF(svd, threePointSvd(x[0], x[1]));
  DEF(qmeth, qMethod(x[0], x[1], x[2]));
  DEF(qmeth1, qMethod(x[0], x[1]));
  euler<EulerAnglesYawPitchRoll>(F, "ypr");
  euler<EulerAnglesZYX>(F, "zyx");
  euler<EulerAnglesZXY>(F, "zxy");
  euler<EulerRodriguez>(F, "rod");
  euler<RotationVector>(F, "rv");
  DEF(rv_invS, RotationVector().parametersToInverseSMatrix(x[0]));
  return F;
}

struct Reg {
  char k = 0;
  std::shared_ptr<Transformation> T;
  std::shared_ptr<UncertainTransformation> U;
  std::shared_ptr<HomogeneousPoint> h;
  std::shared_ptr<UncertainHomogeneousPoint> p;
  UncertainVector3 v;
  UncertainScalar s;
  const Transformation& t() const { return k == 'U' ? *U : *T; }
  const HomogeneousPoint& g() const { return k == 'p' ? *p : *h; }
  Transformation& t() { return k == 'U' ? *U : *T; }
  HomogeneousPoint& g() { return k == 'p' ? *p : *h; }
};
Reg mk(const Transformation& x) { Reg r; r.k = 'T'; r.T.reset(new Transformation(x)); return r; }
Reg mk(const UncertainTransformation& x) { Reg r; r.k = 'U'; r.U.reset(new UncertainTransformation(x)); return r; }
Reg mk(const HomogeneousPoint& x) { Reg r; r.k = 'h'; r.h.reset(new HomogeneousPoint(x)); return r; }
Reg mk(const UncertainHomogeneousPoint& x) { Reg r; r.k = 'p'; r.p.reset(new UncertainHomogeneousPoint(x)); return r; }
Reg mk(const UncertainVector3& x) { Reg r; r.k = 'v'; r.v = x; return r; }
Reg mk(const UncertainScalar& x) { Reg r; r.k = 's'; r.s = x; return r; }

std::map<int, Reg> R;
std::string show(const Reg& r) {
  std::string o = "{\"k\":\"" + std::string(1, r.k) + "\"";
  auto add = [&](const char* n, const std::string& v) { o += std::string(",\"") + n + "\":" + v; };
  if (r.k == 'T' || r.k == 'U') { add("q", vec(r.t().q())); add("t", vec(r.t().t())); }
  if (r.k == 'U') add("U", mat(r.U->U()));
  if (r.k == 'h' || r.k == 'p') add("h", vec(r.g().toHomogeneous()));
  if (r.k == 'p') add("U", mat(r.p->U4()));
  if (r.k == 'v') { add("m", vec(r.v.mean())); add("U", mat(r.v.covariance())); }
  if (r.k == 's') { add("m", vec(sc(r.s.mean()))); add("U", mat(sc(r.s.covariance()))); }
  return o + "}";
}

Reg make(char k, const std::string& how, const Ms& x) {
  if (k == 'T') {
    if (how == "mat") return mk(Transformation(M4(x[0])));
    if (how == "qt") return mk(Transformation(V4(x[0]), V3(x[1])));
    if (how == "id") { Transformation t{V4(x[0]), V3(x[1])}; t.setIdentity(); return mk(t); }
    if (how == "set") { Transformation t; t.set(x[0]); return mk(t); }
  }
  if (k == 'U') {
    if (how == "mat") return mk(UncertainTransformation(M4(x[0])));
    if (how == "matU") return mk(UncertainTransformation(M4(x[0]), M6(x[1])));
    if (how == "matd") return mk(UncertainTransformation(M4(x[0]), x[1](0), x[1](1)));
    if (how == "qt") return mk(UncertainTransformation(V4(x[0]), V3(x[1])));
    if (how == "qtU") return mk(UncertainTransformation(V4(x[0]), V3(x[1]), M6(x[2])));
    if (how == "qtd") return mk(UncertainTransformation(V4(x[0]), V3(x[1]), x[2](0), x[2](1)));
    if (how == "TU") return mk(UncertainTransformation(Transformation(V4(x[0]), V3(x[1])), M6(x[2])));
    if (how == "Td") return mk(UncertainTransformation(Transformation(V4(x[0]), V3(x[1])), x[2](0), x[2](1)));
    if (how == "none") return mk(UncertainTransformation());
  }
  if (k == 'h') {
    if (how == "3") return mk(HomogeneousPoint(V3(x[0])));
    if (how == "4") return mk(HomogeneousPoint(V4(x[0])));
    if (how == "as3") { HomogeneousPoint p(V4(1, 2, 3, 4)); p = V3(x[0]); return mk(p); }
    if (how == "as4") { HomogeneousPoint p; p = V4(x[0]); return mk(p); }
    if (how == "set") { HomogeneousPoint p; p.set(Eigen::VectorXd(x[0])); return mk(p); }
    if (how == "none") return mk(HomogeneousPoint());
  }
  if (k == 'p') {
    if (how == "3") return mk(UncertainHomogeneousPoint(V3(x[0])));
    if (how == "4") return mk(UncertainHomogeneousPoint(V4(x[0])));
    if (how == "3U") return mk(UncertainHomogeneousPoint(V3(x[0]), M3(x[1])));
    if (how == "4U") return mk(UncertainHomogeneousPoint(V4(x[0]), M4(x[1])));
    if (how == "hU") return mk(UncertainHomogeneousPoint(HomogeneousPoint(V4(x[0])), M4(x[1])));
    if (how == "4av") return mk(UncertainHomogeneousPoint(V4(x[0]), M3(x[1])));
    if (how == "hav") return mk(UncertainHomogeneousPoint(HomogeneousPoint(V4(x[0])), M3(x[1])));
  }
  if (k == 'v') return x.size() > 1 ? mk(UncertainVector3(V3(x[0]), M3(x[1]))) : mk(UncertainVector3(V3(x[0])));
  if (k == 's') return x.size() > 1 ? mk(UncertainScalar(x[0](0), x[1](0))) : mk(UncertainScalar(x[0](0)));
  throw std::logic_error("make " + how);
}

// the kinds of registers an operation takes
bool fits(const std::string& f, char a, char b) {
  static const std::map<std::string, std::pair<std::string, std::string>> K{
      {"inv", {"TU", ""}}, {"cert", {"U", ""}}, {"oplus", {"TUhp", ""}}, {"slerp", {"TU", "TU"}}, {"interp", {"TU", "TU"}},
      {"setU", {"Upv", ""}}, {"setUO", {"Up", ""}}, {"view", {"TUhp", ""}}, {"uav", {"p", ""}}, {"normalize", {"hpv", ""}},
      {"normalized", {"v", ""}}, {"tovec", {"h", ""}}, {"topoint", {"h", ""}}, {"scale", {"h", ""}}, {"zero", {"hvs", ""}},
      {"rotate", {"TU", "v"}}, {"lin", {"v", ""}}, {"times", {"vs", ""}}, {"dotc", {"v", ""}}, {"addc", {"vs", ""}},
      {"subc", {"vs", ""}}, {"div", {"s", "s"}}, {"divc", {"s", ""}}, {"svec", {"s", ""}}, {"mulv", {"TU", "Up"}},
      {"addv", {"hp", "p"}}, {"subv", {"hp", "p"}}};
  static const std::set<std::string> pairs{"mul TT", "mul TU", "mul UT", "mul UU", "mul Th", "mul Tp", "mul Uh", "mul Up", "mul vs",
      "mul sv", "mul ss", "add hh", "add hp", "add ph", "add pp", "add vv", "add ss", "sub hh", "sub hp", "sub ph", "sub pp",
      "sub vv", "sub ss", "dot vv", "dot ss"};
  auto i = K.find(f);
  if (i == K.end()) return pairs.count(f + " " + a + b);
  return i->second.first.find(a) != std::string::npos && (i->second.second.empty() || i->second.second.find(b) != std::string::npos);
}

// what has no value (the direction of the zero vector, ...) or has left the range of moderate numbers
bool moderate(const Reg& a) {
  double m = a.T || a.U ? a.t().t().norm() : a.h || a.p ? a.g().toHomogeneous().norm() : a.k == 'v' ? a.v.mean().norm() : std::abs(a.s.mean());
  return m < 1e12;
}
bool defined(const std::string& f, const Reg& a, const Reg& b) {
  if (!moderate(a) || !moderate(b)) return false;
  if (f == "normalize" || f == "normalized") return (a.k == 'v' ? a.v.mean().norm() : a.g().toHomogeneous().norm()) > 1e-8;
  if (f == "topoint") return a.g().toHomogeneous().norm() > 1e-8;
  if (f == "div") return std::abs(b.s.mean()) > 1e-8;
  return true;
}

// (operations left out leave registers of another kind than the script expects)
bool shaped(const std::string& f, char k, const Ms& x) {
  bool t = k == 'T' || k == 'U';
  if (f == "view") return x.size() == (t ? 2u : 0u);
  if (f == "oplus") return x.size() == 1 && x[0].rows() == (t ? 6 : 3);
  if (f == "setU") return x.size() == 1 && x[0].rows() == (k == 'U' ? 6 : k == 'p' ? 4 : 3);
  if (f == "setUO") return x.size() == 1 && x[0].rows() == (k == 'U' ? 6 : 3);
  if (f == "addc" || f == "subc") return x[0].rows() == (k == 'v' ? 3 : 1);
  return true;
}

// the result register; values in y
Reg apply(const std::string& f, Reg& a, Reg& b, const Ms& x, Ms& y) {
  std::string k = {a.k, b.k};
  if (f == "mul") {
    if (k == "TT") return mk(*a.T * *b.T);
    if (k == "TU") return mk(*a.T * *b.U);
    if (k == "UT") return mk(*a.U * *b.T);
    if (k == "UU") return mk(*a.U * *b.U);
    if (k == "Th") return mk(*a.T * *b.h);
    if (k == "Tp") return mk(*a.T * *b.p);
    if (k == "Uh") return mk(*a.U * *b.h);
    if (k == "Up") return mk(*a.U * *b.p);
    if (k == "vs") return mk(a.v * b.s);
    if (k == "sv") return mk(a.s * b.v);
    if (k == "ss") return mk(a.s * b.s);
  }
  if (f == "mulv") {        // through the base class
    const Transformation& A = a.t();
    if (b.k == 'U') return mk(A * *b.U);
    if (b.k == 'p') return mk(A * *b.p);
  }
  if (f == "inv") return a.k == 'T' ? mk(a.T->inverse()) : mk(a.U->inverse());
  if (f == "cert") return mk(a.U->toTransformation());
  if (f == "oplus" && (a.k == 'T' || a.k == 'U')) { a.t().oplus(V6(x[0])); return a; }
  if (f == "oplus") { a.g().oplus(V3(x[0])); return a; }
  if (f == "slerp") return mk(slerpTransformations(a.t(), b.t(), x[0](0)));
  if (f == "interp") return mk(interpolateTransformations(a.t(), x[0](0), b.t(), x[0](1), x[0](2)));
  if (f == "setU") { if (a.k == 'U') a.U->setU(M6(x[0])); else if (a.k == 'p') a.p->setU(M4(x[0])); else a.v.setCovariance(M3(x[0])); return a; }
  if (f == "setUO") { if (a.k == 'U') a.U->setUOplus(M6(x[0])); else a.p->setUOplus(M3(x[0])); return a; }
  if (f == "view") {        // everything a register says of itself
    if (a.k == 'T' || a.k == 'U') {
      y = Ms{a.t().T(), a.t().C(), a.t().T3x4(), a.t().S(), a.t() * V3(x[0]), a.t() * V4(x[1]), a.t().rotate(V3(x[0])), a.t().rotate(V4(x[1]))};
      if (a.k == 'U') { y.push_back(a.U->UOplus()); y.push_back(*a.U * V3(x[0])); y.push_back(*a.U * V4(x[1])); }
    } else if (a.k == 'h' || a.k == 'p') {
      HomogeneousPoint::euclidean_jacobian_t Je; HomogeneousPoint::homogeneous_jacobian_t Jh;
      M h = a.g().toHomogeneousAndJacobian(Jh);
      y = Ms{h, Jh, sc(a.g().atInfinity()), sc(a.g().isVector())};
      if (!a.g().atInfinity()) { M e = a.g().toEuclideanAndJacobian(Je); y.push_back(a.g().toEuclidean()); y.push_back(e); y.push_back(Je); if (a.k == 'p') { y.push_back(a.p->U3()); } }
    }
    return a;
  }
  if (f == "uav") { y = Ms{a.p->U_av_form()}; return a; }
  if (f == "normalize") { if (a.k == 'v') a.v.normalize(); else a.g().normalize(); return a; }
  if (f == "normalized") return mk(a.v.normalized());
  if (f == "tovec") { a.g().convertToVector(); return a; }
  if (f == "topoint") { a.g().convertToPoint(); return a; }
  if (f == "scale") { a.g().scale(x[0](0)); return a; }
  if (f == "zero") { if (a.k == 'v') a.v.setZero(); else if (a.k == 's') a.s.setZero(); else a.g().setZero(); return a; }
  if (f == "rotate") return mk(a.t().rotate(b.v));
  if (f == "lin") return mk(M3(x[0]) * a.v);
  if (f == "times") return a.k == 'v' ? mk(a.v * x[0](0)) : mk(a.s * x[0](0));
  if (f == "dot") return a.k == 'v' ? mk(a.v.dot(b.v)) : mk(a.s.dot(b.s));
  if (f == "dotc") return mk(a.v.dot(V3(x[0])));
  if (f == "addc") return a.k == 'v' ? mk(a.v + V3(x[0])) : mk(a.s + x[0](0));
  if (f == "subc") return a.k == 'v' ? mk(a.v - V3(x[0])) : mk(a.s - x[0](0));
  if (f == "div") return mk(a.s / b.s);
  if (f == "divc") return mk(a.s / x[0](0));
  if (f == "svec") return mk(a.s * V3(x[0]));
  if (f == "add") {
    if (k == "hh") return mk(*a.h + *b.h);
    if (k == "hp") return mk(*a.h + *b.p);
    if (k == "ph") return mk(*a.p + *b.h);
    if (k == "pp") return mk(*a.p + *b.p);
    if (k == "vv") return mk(a.v + b.v);
    if (k == "ss") return mk(a.s + b.s);
  }
  if (f == "sub") {
    if (k == "hh") return mk(*a.h - *b.h);
    if (k == "hp") return mk(*a.h - *b.p);
    if (k == "ph") return mk(*a.p - *b.h);
    if (k == "pp") return mk(*a.p - *b.p);
    if (k == "vv") return mk(a.v - b.v);
    if (k == "ss") return mk(a.s - b.s);
  }
  if (f == "addv" || f == "subv") {   // through the base class
    const HomogeneousPoint& A = a.g();
    return f == "addv" ? mk(A + *b.p) : mk(A - *b.p);
  }
  throw std::logic_error("apply " + f + " " + k);
}

void op(Line& L) {
  static std::map<std::string, Fn> F = table();
  auto mlist = [&] { Ms x; for (int n = L.i(); n > 0; --n) x.push_back(L.m()); return x; };
  if (L.op == "begin") { R.clear(); Out("begin").s("id", L.w()); return; }
  if (L.op == "f") {
    std::string n = L.w();
    Ms x = mlist(), y;
    bool exc = false;
    try { y = F.at(n)(x); } catch (const std::runtime_error&) { exc = true; y.clear(); }
    Out("f").s("f", n).put("x", mats(x)).put("y", mats(y)).b("exc", exc);
  } else if (L.op == "set") {
    int r = L.i();
    char k = L.w()[0];
    std::string how = L.w();
    Ms x = mlist();
    R[r] = make(k, how, x);
    Out("set").i("r", r).s("k", std::string(1, k)).s("how", how).put("x", mats(x)).put("y", show(R[r]));
  } else if (L.op == "reg") {
    std::string f = L.w();
    int r = L.i(), a = L.i(), b = L.i();
    Ms x = mlist(), y;
    bool exc = false;
    if (!fits(f, R[a].k, R[b].k) || !defined(f, R[a], R[b]) || !shaped(f, R[a].k, x)) return;
    Reg z;
    try { z = apply(f, R[a], R[b], x, y); } catch (const std::runtime_error&) { exc = true; y.clear(); }
    // the operands as they are now, then the result
    std::string sa = show(R[a]), sb = show(R[b]), sr = exc ? sa : show(z);   // in place: the result is the operand
    static const std::set<std::string> inPlace{"oplus", "setU", "setUO", "normalize", "tovec", "topoint", "scale", "zero"};
    if (!exc && y.empty() && !inPlace.count(f)) {
      Reg c = z;      // a copy of its own
      if (c.T) c.T.reset(new Transformation(*c.T));
      if (c.U) c.U.reset(new UncertainTransformation(*c.U));
      if (c.h) c.h.reset(new HomogeneousPoint(*c.h));
      if (c.p) c.p.reset(new UncertainHomogeneousPoint(*c.p));
      R[r] = c;
    }
    Out("reg").s("f", f).i("r", r).i("a", a).i("b", b).put("x", mats(x)).put("y", mats(y)).put("ra", sa).put("rb", sb).put("rr", sr).b("exc", exc);
  } else throw std::logic_error("unknown operation " + L.op);
}

int main(int c, char** v) { return run(c, v, op); }
