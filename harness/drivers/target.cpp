// Calibration targets, their observations and the detector that fills them.
//
//   target R KIND rows cols a b      checker (spacings a b), circle (a; b: asymmetric), april (size a, gap b)
//   obs O R | obsimg O R rows cols pixel | copy O P | settarget O R
//   upd O i x y | rem O i | img O rows cols pixel | clr O | time O s n | pose O q(4) t(3)
//   camera KIND q.. (7 numbers, the first the distortion)
//   find O R filter sigma min notrans success q(4) t(3) s n rows cols  nv invalid..  nn (i dx dy)..
#include "vt.hpp"
#include <map>
#include <memory>
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/targets.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetObservation.hpp>
#include <aslam_cameras/cameras/GridDetector.hpp>
#include <aslam_cameras_april/GridCalibrationTargetAprilgrid.hpp>
using namespace vt;
using namespace aslam::cameras;
typedef GridCalibrationTargetObservation Obs;
typedef GridCalibrationTargetBase Target;

// what the next detection gives
struct Shot { bool ok; Eigen::MatrixXd pts; std::vector<bool> valid; } shot;
template <class B> struct Mock : B {
  using B::B;
  bool computeObservation(const cv::Mat&, Eigen::MatrixXd& p, std::vector<bool>& v) const override { p = shot.pts; v = shot.valid; return shot.ok; }
};
std::map<std::string, Target::Ptr> targets;
std::map<std::string, std::unique_ptr<Obs>> objs;
boost::shared_ptr<CameraGeometryBase> cam;

std::string f2(const cv::Point2f& p) { return "[" + num(p.x) + "," + num(p.y) + "]"; }
std::string f3(const cv::Point3f& p) { return "[" + num(p.x) + "," + num(p.y) + "," + num(p.z) + "]"; }
std::string bools(const std::vector<bool>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += std::string(i ? "," : "") + (v[i] ? "true" : "false"); return s + "]"; }

void dump(Out& o, const std::string& name) {
  Obs& b = *objs.at(name);
  std::string s = "[";
  for (auto& t : targets) if (t.second == b.target()) s += (s.size() > 1 ? "," : "") + str(t.first);
  o.s("o", name).put("tg", s + "]");
  const Obs& cb = b;
  o.b("tgc", cb.target() == b.target());
  std::vector<cv::Point3f> ct(3);
  std::vector<cv::Point2f> ci(2), rp(1);
  std::vector<unsigned> ix(1);
  int n1 = b.getCornersTargetFrame(ct), n2 = b.getCornersImageFrame(ci), n3 = b.getCornersIdx(ix), n4 = -1;
  o.put("n", ints({n1, n2, n3})).put("ct", vt::list<cv::Point3f>(ct, f3)).put("ci", vt::list<cv::Point2f>(ci, f2)).put("ix", ints(std::vector<int>(ix.begin(), ix.end())));
  std::vector<bool> ok, okg;
  Eigen::MatrixXd ip(b.target()->size(), 2), ig(b.target()->size(), 2);
  for (size_t i = 0; i < b.target()->size(); ++i) {
    Eigen::Vector2d p, g;
    ok.push_back(b.imagePoint(i, p));
    okg.push_back(b.imageGridPoint(i / b.target()->cols(), i % b.target()->cols(), g));
    ip.row(i) = p;
    ig.row(i) = g;
  }
  o.put("ok", bools(ok)).put("okg", bools(okg)).m("ip", ip).m("ig", ig).m("pts", b.points());
  bool out = false;
  try { Eigen::Vector2d p; b.imagePoint(b.target()->size(), p); } catch (const Obs::Exception&) { out = true; }
  o.b("out", out).i("imr", b.imRows()).i("imc", b.imCols());
  cv::Mat im = b.image();
  o.put("im", ints({im.rows, im.cols, im.empty() ? -1 : (int)im.at<unsigned char>(0, 0)}));
  o.put("t", "[" + big(b.time().sec) + "," + big(b.time().nsec) + "]").b("has", b.hasSuccessfulObservation());
  bool posed = true;
  try { if (cam) n4 = b.getCornerReprojection(cam, rp); else posed = false; }
  catch (const Obs::Exception&) { posed = false; rp.clear(); }
  if (!cam) rp.clear();
  o.b("cam", !!cam).b("posed", posed).i("n4", n4).put("rp", vt::list<cv::Point2f>(rp, f2)).m("T", b.T_t_c().T());
}
template <class F> void act(const std::string& op, const std::string& name, Line&, F f) {
  Out o(op);
  bool threw = false;
  try { f(o); } catch (const Obs::Exception&) { threw = true; }
  o.b("threw", threw);
  if (objs.count(name)) dump(o, name);
}
cv::Mat image(int r, int c, int p) { return cv::Mat(r, c, CV_8UC1, cv::Scalar(p)); }

int main(int argc, char** argv) {
  return run(argc, argv, [&](Line& l) {
    if (l.op == "begin") { targets.clear(); objs.clear(); cam.reset(); Out("begin").s("id", l.rest()); return; }
    if (l.op == "target") {
      std::string R = l.w(), k = l.w();
      int r = l.i(), c = l.i();
      double a = l.d(), b = l.d();
      Out o("target");
      o.s("r", R).s("k", k).i("rows0", r).i("cols0", c).d("a", a).d("b", b);
      Target::Ptr t;
      try {
        if (k == "checker") t.reset(new Mock<GridCalibrationTargetCheckerboard>(r, c, a, b));
        else if (k == "circle") { GridCalibrationTargetCirclegrid::CirclegridOptions op; op.useAsymmetricCirclegrid = b != 0; t.reset(new Mock<GridCalibrationTargetCirclegrid>(r, c, a, op)); }
        else t.reset(new Mock<GridCalibrationTargetAprilgrid>(r, c, a, b));
      } catch (const std::runtime_error&) { o.b("refused", true); return; }
      o.b("refused", false);
      targets[R] = t;
      int n = t->size();
      o.i("size", n).i("rows", t->rows()).i("cols", t->cols()).m("points", t->points());
      Eigen::MatrixXd p(n, 3), g(n, 3), d(n, 3);
      std::vector<int> gr, gc, back;
      int bad = 0;
      for (int i = 0; i < n; ++i) {
        p.row(i) = t->point(i);
        std::pair<size_t, size_t> x = t->pointToGridCoordinates(i);
        gr.push_back(x.first);
        gc.push_back(x.second);
        back.push_back(t->gridCoordinatesToPoint(i / (int)t->cols(), i % (int)t->cols()));
        g.row(i) = t->gridPoint(i / (int)t->cols(), i % (int)t->cols());
        try { d.row(i) = Eigen::Map<Eigen::RowVector3d>(t->getPointDataPointer(i)); } catch (const Target::Exception&) { ++bad; d.row(i).setZero(); }
      }
      bool beyond = false;
      try { t->getPointDataPointer(n); } catch (const Target::Exception&) { beyond = true; }
      o.m("point", p).m("grid", g).m("data", d).i("bad", bad).b("beyond", beyond).put("gr", ints(gr)).put("gc", ints(gc)).put("back", ints(back));
      return;
    }
    if (l.op == "camera") {
      std::string k = l.w();
      Eigen::VectorXd q = l.v();
      int ru = l.i(), rv = l.i();
      if (k == "pin") cam.reset(new PinholeCameraGeometry(PinholeProjection<NoDistortion>(q[0], q[1], q[2], q[3], ru, rv)));
      else if (k == "omni") cam.reset(new OmniCameraGeometry(OmniProjection<NoDistortion>(q[0], q[1], q[2], q[3], q[4], ru, rv)));
      else if (k == "eucm") cam.reset(new ExtendedUnifiedCameraGeometry(ExtendedUnifiedProjection<NoDistortion>(q[0], q[1], q[2], q[3], q[4], q[5], ru, rv)));
      else cam.reset(new DoubleSphereCameraGeometry(DoubleSphereProjection<NoDistortion>(q[0], q[1], q[2], q[3], q[4], q[5], ru, rv)));
      Out("camera").s("k", k).v("q", q).i("ru", ru).i("rv", rv);
      return;
    }
    std::string O = l.w(), R, P;
    if (l.op == "obs") { R = l.w(); act("obs", O, l, [&](Out& o) { o.s("R", R); objs[O].reset(new Obs(targets.at(R))); }); }
    else if (l.op == "obsimg") { R = l.w(); int r = l.i(), c = l.i(), p = l.i(); act("obsimg", O, l, [&](Out& o) { o.s("R", R).put("g", ints({r, c, p})); objs[O].reset(new Obs(targets.at(R), image(r, c, p))); }); }
    else if (l.op == "copy") { P = l.w(); bool assign = l.i(); act("copy", O, l, [&](Out& o) { o.s("P", P); if (assign && objs.count(O)) *objs[O] = *objs.at(P); else objs[O].reset(new Obs(*objs.at(P))); }); }
    else if (l.op == "settarget") { R = l.w(); act("settarget", O, l, [&](Out& o) { o.s("R", R); objs.at(O)->setTarget(R == "null" ? Target::Ptr() : targets.at(R)); }); }
    else if (l.op == "upd") { long i = l.i(); Eigen::Vector2d x = l.v(2); act("upd", O, l, [&](Out& o) { o.i("i", i).v("x", x); objs.at(O)->updateImagePoint(i, x); }); }
    else if (l.op == "rem") { long i = l.i(); act("rem", O, l, [&](Out& o) { o.i("i", i); objs.at(O)->removeImagePoint(i); }); }
    else if (l.op == "img") { int r = l.i(), c = l.i(), p = l.i(); act("img", O, l, [&](Out& o) { o.put("g", ints({r, c, p})); objs.at(O)->setImage(image(r, c, p)); }); }
    else if (l.op == "clr") act("clr", O, l, [&](Out&) { objs.at(O)->clearImage(); });
    else if (l.op == "look") act("look", O, l, [&](Out&) {});
    else if (l.op == "time") { unsigned s = l.ull(), n = l.ull(); act("time", O, l, [&](Out& o) { o.put("g", "[" + big(s) + "," + big(n) + "]"); objs.at(O)->setTime(aslam::Time(s, n)); }); }
    else if (l.op == "pose") {
      Eigen::Vector4d q = l.v(4);
      Eigen::Vector3d t = l.v(3);
      sm::kinematics::Transformation T(q, t);
      act("pose", O, l, [&](Out& o) { o.m("G", T.T()); objs.at(O)->set_T_t_c(T); });
    } else if (l.op == "find") {
      R = l.w();
      GridDetector::GridDetectorOptions op;
      op.filterCornerOutliers = l.i();
      op.filterCornerSigmaThreshold = l.d();
      op.filterCornerMinReprojError = l.d();
      int notrans = l.i();
      shot = Shot();
      shot.ok = l.i();
      Eigen::Vector4d q = l.v(4);
      Eigen::Vector3d t = l.v(3);
      unsigned s = l.ull(), ns = l.ull();
      int rows = l.i(), cols = l.i();
      sm::kinematics::Transformation T(q, t), Ti = T.inverse();
      Target& tg = *targets.at(R);
      shot.pts.resize(tg.size(), 2);
      shot.valid.assign(tg.size(), true);
      for (size_t i = 0; i < tg.size(); ++i) {
        Eigen::Vector3d p = Ti * tg.point(i);
        Eigen::VectorXd k(2);
        shot.valid[i] = cam->vsEuclideanToKeypoint(p, k);
        shot.pts.row(i) = k;
        if (!shot.valid[i]) shot.pts.row(i).setConstant(-1);
      }
      for (int n = l.i(); n > 0; --n) shot.valid.at(l.i()) = false;
      for (int n = l.i(); n > 0; --n) { int i = l.i(); double dx = l.d(), dy = l.d(); shot.pts(i, 0) += dx; shot.pts(i, 1) += dy; }
      bool clean = !l.more();
      if (!clean) { std::string w = l.w(); if (w == "empty") { shot.pts.resize(0, 0); shot.valid.clear(); } else clean = w == "clean"; }
      act("find", O, l, [&](Out& o) {
        o.s("R", R).b("filter", op.filterCornerOutliers).d("sigma", op.filterCornerSigmaThreshold).d("min", op.filterCornerMinReprojError)
          .b("clean", clean).b("ok1", shot.ok).m("gp", shot.pts).put("gv", bools(shot.valid)).m("G", T.T())
          .put("gt", "[" + big(s) + "," + big(ns) + "]").put("gi", ints({rows, cols, 7})).i("notrans", notrans);
        GridDetector d(cam, targets.at(R), op);
        aslam::Time st(s, ns);
        cv::Mat im = image(rows, cols, 7);
        bool r = false, pnp = false;
        try {
        if (s == 0 && ns == 0) r = notrans ? d.findTargetNoTransformation(im, *objs.at(O)) : d.findTarget(im, *objs.at(O));
        else r = notrans ? d.findTargetNoTransformation(im, st, *objs.at(O)) : d.findTarget(im, st, *objs.at(O));
        } catch (const cv::Exception&) { pnp = true; }
        o.b("ret", r).b("pnp", pnp).b("same", d.geometry() == cam && d.target() == targets.at(R));
      });
    } else throw std::logic_error(l.op);
  });
}
