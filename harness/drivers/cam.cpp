// Camera geometries.
//
//   cam KIND DIST SHUTTER VIA ru rv lineDelay maskScale rows cols mask.. q.. k..
//   proj f1 f2 f3 p(3) | projh f1 f2 f3 p(4)   project, with every Jacobian (f: projection, distortion, shutter)
//   lift k(2)   back-project, also at neighbours
//   valid k(2) | shut k(2)
//   get f1 f2 f3 | set f1 f2 f3 values | upd f1 f2 f3 values | resize s
#include "vt.hpp"
#include <memory>
#include <aslam_cameras/cameras.hpp>
#include <sm_property_tree/BoostPropertyTree.hpp>
using namespace vt;
using namespace aslam::cameras;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;

struct Spec {
  std::string kind, dist, shutter, via;
  int ru, rv;
  double ld, ms;
  Eigen::MatrixXi mask;
  V q, k;
};
struct Cam {
  virtual ~Cam() {}
  virtual void project(Out& o, const Eigen::Vector3d& p, bool a, bool b, bool c) = 0;
  virtual void projectH(Out& o, const Eigen::Vector4d& p, bool a, bool b, bool c) = 0;
  virtual void lift(Out& o, const Eigen::Vector2d& k) = 0;
  virtual void resize(double s) = 0;
  virtual bool validS(const Eigen::Vector2d& k) = 0;
  virtual double offsetS(const Eigen::Vector2d& k) = 0;
  virtual CameraGeometryBase& base() = 0;
};
template <class D> D mkDist(const V& k);
template <> NoDistortion mkDist<NoDistortion>(const V&) { return NoDistortion(); }
template <> RadialTangentialDistortion mkDist<RadialTangentialDistortion>(const V& k) { return RadialTangentialDistortion(k[0], k[1], k[2], k[3]); }
template <> EquidistantDistortion mkDist<EquidistantDistortion>(const V& k) { return EquidistantDistortion(k[0], k[1], k[2], k[3]); }
template <> FovDistortion mkDist<FovDistortion>(const V& k) { return FovDistortion(k[0]); }
template <class D> PinholeProjection<D> mk(const Spec& s, PinholeProjection<D>*) { return PinholeProjection<D>(s.q[0], s.q[1], s.q[2], s.q[3], s.ru, s.rv, mkDist<D>(s.k)); }
template <class D> OmniProjection<D> mk(const Spec& s, OmniProjection<D>*) { return OmniProjection<D>(s.q[0], s.q[1], s.q[2], s.q[3], s.q[4], s.ru, s.rv, mkDist<D>(s.k)); }
template <class D> ExtendedUnifiedProjection<D> mk(const Spec& s, ExtendedUnifiedProjection<D>*) { return ExtendedUnifiedProjection<D>(s.q[0], s.q[1], s.q[2], s.q[3], s.q[4], s.q[5], s.ru, s.rv, mkDist<D>(s.k)); }
template <class D> DoubleSphereProjection<D> mk(const Spec& s, DoubleSphereProjection<D>*) { return DoubleSphereProjection<D>(s.q[0], s.q[1], s.q[2], s.q[3], s.q[4], s.q[5], s.ru, s.rv, mkDist<D>(s.k)); }
template <class S> S mkShutter(const Spec&);
template <> GlobalShutter mkShutter<GlobalShutter>(const Spec&) { return GlobalShutter(); }
template <> RollingShutter mkShutter<RollingShutter>(const Spec& s) { return RollingShutter(s.ld); }
void setMask(NoMask&, const Spec&) {}
void setMask(ImageMask& m, const Spec& s) { if (s.mask.rows()) m.setMaskFromMatrix(s.mask); m.setScale(s.ms); }

template <class P, class S, class K> struct CamT : Cam {
  typedef CameraGeometry<P, S, K> G;
  std::unique_ptr<G> g;
  explicit CamT(const Spec& s) {
    K mask;
    setMask(mask, s);
    if (s.via == "tree") {
      sm::BoostPropertyTree t("cam");
      const char* names[4][6] = {{"fu", "fv", "cu", "cv"}, {"xi", "fu", "fv", "cu", "cv"}, {"alpha", "beta", "fu", "fv", "cu", "cv"}, {"xi", "alpha", "fu", "fv", "cu", "cv"}};
      int r = s.kind == "pin" ? 0 : s.kind == "omni" ? 1 : s.kind == "eucm" ? 2 : 3;
      for (int i = 0; i < s.q.size(); ++i) t.setDouble(std::string("projection/") + names[r][i], s.q[i]);
      t.setInt("projection/ru", s.ru);
      t.setInt("projection/rv", s.rv);
      const char* dn[2][4] = {{"k1", "k2", "p1", "p2"}, {"k1", "k2", "k3", "k4"}};
      for (int i = 0; i < s.k.size(); ++i) t.setDouble(std::string("projection/distortion/") + (s.dist == "fov" ? "w" : dn[s.dist == "equi"][i]), s.k[i]);
      t.setDouble("shutter/line-delay", s.ld);
      P p(sm::PropertyTree(t, "projection"));
      S sh(sm::PropertyTree(t, "shutter"));
      g.reset(new G(p, sh, mask));
    } else if (s.via == "set") {
      P p = mk(s, (P*)0);
      S sh = mkShutter<S>(s);
      g.reset(new G());
      g->projection() = p;
      g->shutter() = sh;
      g->setMask(mask);
    } else if (s.via == "dist") {   // the distortion comes last
      Spec z = s;
      z.k = V::Zero(s.k.size());
      if (s.dist == "fov") z.k.setConstant(.7);
      g.reset(new G(mk(z, (P*)0), mkShutter<S>(s), mask));
      g->projection().setDistortion(mk(s, (P*)0).distortion());
    } else
      g.reset(new G(mk(s, (P*)0), mkShutter<S>(s), mask));
  }
  CameraGeometryBase& base() { return *g; }
  bool validS(const Eigen::Vector2d& k) { return g->isValid(k); }
  double offsetS(const Eigen::Vector2d& k) { return g->temporalOffset(k).toSec(); }
  void resize(double s) { g->projection().resizeIntrinsics(s); }
  void project(Out& o, const Eigen::Vector3d& p, bool a, bool b, bool c) {
    Eigen::Vector2d k1(7, 7), k2(7, 7);
    V k3, k4;
    M J2(2, 3), J4, Ji, Jd, Jc;
    J2.setConstant(7);
    o.b("ok1", g->euclideanToKeypoint(p, k1)).v("k1", k1);
    o.b("ok2", g->euclideanToKeypoint(p, k2, J2)).v("k2", k2).m("J2", J2);
    o.b("ok3", base().vsEuclideanToKeypoint(p, k3)).v("k3", k3);
    o.b("ok4", base().vsEuclideanToKeypoint(p, k4, J4)).v("k4", k4).m("J4", J4);
    o.b("vis", g->isEuclideanVisible(p)).b("vvis", base().vsIsEuclideanVisible(p));
    g->euclideanToKeypointIntrinsicsJacobian(p, Ji);
    g->euclideanToKeypointDistortionJacobian(p, Jd);
    base().euclideanToKeypointIntrinsicsJacobian(p, Jc, a, b, c);
    o.m("Ji", Ji).m("Jd", Jd).m("Jc", Jc);
  }
  void projectH(Out& o, const Eigen::Vector4d& p, bool a, bool b, bool c) {
    Eigen::Vector2d k1(7, 7), k2(7, 7);
    V k3, k4;
    M J2(2, 4), J4, Ji, Jd, Jc;
    J2.setConstant(7);
    o.b("ok1", g->homogeneousToKeypoint(p, k1)).v("k1", k1);
    o.b("ok2", g->homogeneousToKeypoint(p, k2, J2)).v("k2", k2).m("J2", J2);
    o.b("ok3", base().vsHomogeneousToKeypoint(p, k3)).v("k3", k3);
    o.b("ok4", base().vsHomogeneousToKeypoint(p, k4, J4)).v("k4", k4).m("J4", J4);
    o.b("vis", g->isHomogeneousVisible(p)).b("vvis", base().vsIsHomogeneousVisible(p));
    g->homogeneousToKeypointIntrinsicsJacobian(p, Ji);
    g->homogeneousToKeypointDistortionJacobian(p, Jd);
    base().homogeneousToKeypointIntrinsicsJacobian(p, Jc, a, b, c);
    o.m("Ji", Ji).m("Jd", Jd).m("Jc", Jc);
  }
  void lift(Out& o, const Eigen::Vector2d& k) {
    Eigen::Vector3d r1(7, 7, 7), r2(7, 7, 7), r3(7, 7, 7);
    Eigen::Vector4d h1(7, 7, 7, 7), h2(7, 7, 7, 7);
    M J2(3, 2), J4, Jh(4, 2), J6;
    V r4, h3, h4;
    J2.setZero();
    o.b("ok1", g->keypointToEuclidean(k, r1)).v("r1", r1);
    o.b("ok3", base().vsKeypointToEuclidean(k, r3)).v("r3", r3);
    o.b("okh1", g->keypointToHomogeneous(k, h1)).v("h1", h1);
    V kv = k;
    o.b("okh3", base().vsKeypointToHomogeneous(kv, h3)).v("h3", h3);
    bool jac = true;
    try {
      o.b("ok2", g->keypointToEuclidean(k, r2, J2)).v("r2", r2).m("J2", J2);
      o.b("ok4", base().vsKeypointToEuclidean(kv, r4, J4)).v("r4", r4).m("J4", J4);
      o.b("okh2", g->keypointToHomogeneous(k, h2, Jh)).v("h2", h2).m("Jh", Jh);
      o.b("okh4", base().vsKeypointToHomogeneous(kv, h4, J6)).v("h4", h4).m("J6", J6);
    } catch (const std::exception&) { jac = false; }
    o.b("jac", jac);
    M fp(3, 2), fm(3, 2);
    bool fd = true;
    for (int i = 0; i < 2; ++i)
      for (int s = -1; s <= 1; s += 2) {
        Eigen::Vector2d x = k;
        x[i] += s * 0x1p-9;
        Eigen::Vector3d r(7, 7, 7);
        fd = g->keypointToEuclidean(x, r) && fd;
        (s > 0 ? fp : fm).col(i) = r;
      }
    o.b("fd", fd).m("fp", fp).m("fm", fm);
  }
};
std::unique_ptr<Cam> make(const Spec& s) {
  typedef std::unique_ptr<Cam> U;
  if (s.shutter == "gs") {
    if (s.kind == "pin") return U(new CamT<PinholeProjection<RadialTangentialDistortion>, GlobalShutter, NoMask>(s));
    return U(new CamT<OmniProjection<NoDistortion>, GlobalShutter, NoMask>(s));
  }
#define MAKE(KIND, PROJ, DIST, D) if (s.kind == KIND && s.dist == DIST) return U(new CamT<PROJ<D>, RollingShutter, ImageMask>(s));
  MAKE("pin", PinholeProjection, "none", NoDistortion)
  MAKE("pin", PinholeProjection, "radtan", RadialTangentialDistortion)
  MAKE("pin", PinholeProjection, "equi", EquidistantDistortion)
  MAKE("pin", PinholeProjection, "fov", FovDistortion)
  MAKE("omni", OmniProjection, "none", NoDistortion)
  MAKE("omni", OmniProjection, "radtan", RadialTangentialDistortion)
  MAKE("omni", OmniProjection, "equi", EquidistantDistortion)
  MAKE("omni", OmniProjection, "fov", FovDistortion)
  MAKE("eucm", ExtendedUnifiedProjection, "none", NoDistortion)
  MAKE("ds", DoubleSphereProjection, "none", NoDistortion)
  throw std::runtime_error("no such camera");
}

int main(int argc, char** argv) {
  std::unique_ptr<Cam> C;
  Spec s;
  return run(argc, argv, [&](Line& L) {
    std::string op = L.op;
    if (op == "begin") { C.reset(); Out("begin").s("id", L.w()); return; }
    if (op == "cam") {
      s.kind = L.w(); s.dist = L.w(); s.shutter = L.w(); s.via = L.w();
      s.ru = L.i(); s.rv = L.i(); s.ld = L.d(); s.ms = L.d();
      int r = L.i(), c = L.i();
      s.mask.resize(r, c);
      for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) s.mask(i, j) = L.i();
      int nq = s.kind == "pin" ? 4 : s.kind == "omni" ? 5 : 6;
      s.q = L.v(nq);
      s.k = L.v(s.dist == "none" ? 0 : s.dist == "fov" ? 1 : 4);
      C = make(s);
      M mm = s.mask.cast<double>();
      CameraGeometryBase& g = C->base();
      Out("cam").s("kind", s.kind).s("dist", s.dist).s("shutter", s.shutter).i("ru", s.ru).i("rv", s.rv).d("ld", s.ld).d("ms", s.ms)
          .m("mask", mm).v("q", s.q).v("k", s.k).i("np", g.minimalDimensionsProjection()).i("nd", g.minimalDimensionsDistortion())
          .i("ns", g.minimalDimensionsShutter()).i("kd", g.keypointDimension()).b("hasMask", g.hasMask()).b("inv", g.isProjectionInvertible());
      return;
    }
    if (!C) throw std::runtime_error("no camera");
    if (op == "proj" || op == "projh") {
      bool a = L.i(), b = L.i(), c = L.i();
      Out o(op);
      o.b("a", a).b("b", b).b("c", c);
      if (op == "proj") { Eigen::Vector3d p = L.v(3); o.v("p", p); C->project(o, p, a, b, c); }
      else { Eigen::Vector4d p = L.v(4); o.v("p", p); C->projectH(o, p, a, b, c); }
    } else if (op == "lift") {
      Eigen::Vector2d k = L.v(2);
      Out o(op);
      o.v("k", k);
      C->lift(o, k);
    } else if (op == "valid") {
      Eigen::Vector2d k = L.v(2);
      V kv = k;
      Out(op).v("k", k).b("ok", C->validS(k)).b("vok", C->base().vsIsValid(kv));
    } else if (op == "shut") {
      Eigen::Vector2d k = L.v(2);
      bool a = L.i(), b = L.i(), c = L.i();
      V kv = k;
      M J;
      C->base().temporalOffsetIntrinsicsJacobian(kv, J, a, b, c);
      Out(op).v("k", k).b("a", a).b("b", b).b("c", c).d("t1", C->offsetS(k)).d("t2", C->base().vsTemporalOffset(kv).toSec()).d("t3", C->base().temporalOffset(kv).toSec()).m("J", J);
    } else if (op == "get" || op == "set" || op == "upd") {
      bool a = L.i(), b = L.i(), c = L.i();
      CameraGeometryBase& g = C->base();
      Out o(op);
      o.b("a", a).b("b", b).b("c", c);
      V v;
      if (op != "get") {
        v = L.v(g.minimalDimensions(a, b, c));
        o.v("v", v);
        if (op == "set") { M P = v; g.setParameters(P, a, b, c); } else g.update(v.data(), a, b, c);
      }
      M P;
      g.getParameters(P, true, true, true);
      o.m("P", P);
      g.getParameters(P, a, b, c);
      o.m("Q", P).i("dim", g.minimalDimensions(a, b, c));
    } else if (op == "resize") {
      double f = L.d();
      C->resize(f);
      M P;
      C->base().getParameters(P, true, true, true);
      Out(op).d("f", f).m("P", P).i("w", C->base().width()).i("h", C->base().height());
    } else
      throw std::runtime_error("op " + op);
  });
}
