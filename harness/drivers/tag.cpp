// Fiducial detection: code words, the grouping and fitting steps, whole images and April grids.
//
//   table NAME border                    the family's table
//   bits n | frac v                      error recovery of the family in use
//   dec W | rot d W | ham A B            code words (hexadecimal)
//   uf n | join a b | ufsnap
//   grid x0 y0 x1 y1 cell | gadd x y | gfind x y range
//   cross x1 y1 x2 y2 x3 y3 x4 y4 | coord x1 y1 x2 y2 px py c | fit n (x y w).. | mod v
//   homo cx cy n (wx wy ix iy).. | gray n (x y g).. | gauss sigma n | filt w h nh nv (h) (v) (pixels)
//   tags W H roi n (W hexword cx0 cy0 .. cx3 cy3)..      words drawn in an image, then extracted
//   board KIND W H roi rows cols sub x0 y0 .. x3 y3   a checkerboard (checker) or circles (circle, asym) drawn, then observed
//   april rows cols size gap border minTags minBorder maxDisp subpix
//   view W H roi rows cols size gap x0 y0 .. x3 y3 n (place word)..   words drawn on a board, then observed
#include "vt.hpp"
#include <memory>
#include <map>
#include <aslam_apriltag2/TagDetector.h>
#include <aslam_apriltag2/TagFamily.h>
#include <aslam_apriltag2/UnionFindSimple.h>
#include <aslam_apriltag2/Gridder.h>
#include <aslam_apriltag2/GLine2D.h>
#include <aslam_apriltag2/GLineSegment2D.h>
#include <aslam_apriltag2/Homography33.h>
#include <aslam_apriltag2/GrayModel.h>
#include <aslam_apriltag2/Gaussian.h>
#include <aslam_apriltag2/FloatImage.h>
#include <aslam_apriltag2/Tag16h5.h>
#include <aslam_apriltag2/Tag16h5_other.h>
#include <aslam_apriltag2/Tag25h7.h>
#include <aslam_apriltag2/Tag25h9.h>
#include <aslam_apriltag2/Tag36h11.h>
#include <aslam_apriltag2/Tag36h11_other.h>
#include <aslam_apriltag2/Tag36h9.h>
#include <aslam_cameras/targets.hpp>
#include <aslam_cameras_april/GridCalibrationTargetAprilgrid.hpp>
using namespace vt;
using namespace AprilTags;
typedef unsigned long long W64;
typedef std::pair<float, float> P2;

std::unique_ptr<TagFamily> fam;
std::unique_ptr<TagDetector> det;
std::unique_ptr<UnionFindSimple> uf;
int ufn = 0;
struct Pt { int i; };
std::unique_ptr<Gridder<Pt>> grid;
std::vector<std::unique_ptr<Pt>> pts;
std::unique_ptr<aslam::cameras::GridCalibrationTargetAprilgrid> april;
int border = 2;

const TagCodes& codes(const std::string& n) {
  if (n == "16h5") return tagCodes16h5;
  if (n == "16h5o") return tagCodes16h5_other;
  if (n == "25h7") return tagCodes25h7;
  if (n == "25h9") return tagCodes25h9;
  if (n == "36h11") return tagCodes36h11;
  if (n == "36h11o") return tagCodes36h11_other;
  if (n == "36h9") return tagCodes36h9;
  throw std::logic_error(n);
}
W64 word(Line& l) { return std::stoull(l.w(), nullptr, 16); }
std::string dg(W64 w) { std::vector<int> d; for (int i = 0; i < 11; ++i) { d.push_back(w & 63); w >>= 6; } return ints(d); }
std::string p2(const P2& p) { return "[" + num(p.first) + "," + num(p.second) + "]"; }
template <class It> std::string join(It b, It e) { std::string s = "["; for (It i = b; i != e; ++i) s += (i == b ? "" : ",") + *i; return s + "]"; }
template <class C> std::string strs(const C& c) { return join(c.begin(), c.end()); }
std::vector<float> floats(Line& l, int n) { std::vector<float> v; while (n-- > 0) v.push_back(l.d()); return v; }
std::string nums(const std::vector<float>& v) { std::vector<std::string> s; for (float x : v) s.push_back(num(x)); return strs(s); }

// --- drawing: pixel (x, y) is the mean over the unit square around it
typedef Eigen::Matrix3d M3;
M3 homography(const double s[4][2], const double d[4][2]) {
  Eigen::Matrix<double, 8, 8> A;
  Eigen::Matrix<double, 8, 1> b;
  for (int i = 0; i < 4; ++i) {
    double x = s[i][0], y = s[i][1], u = d[i][0], v = d[i][1];
    A.row(2 * i) << x, y, 1, 0, 0, 0, -u * x, -u * y;
    A.row(2 * i + 1) << 0, 0, 0, x, y, 1, -v * x, -v * y;
    b[2 * i] = u;
    b[2 * i + 1] = v;
  }
  Eigen::Matrix<double, 8, 1> h = A.fullPivLu().solve(b);
  M3 H;
  H << h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], 1;
  return H;
}
// colour of the unit square [-1,1]^2 (y up) of a tag; -1 outside
int colour(W64 w, int d, int b, double x, double y) {
  if (!(std::abs(x) <= 1 && std::abs(y) <= 1)) return -1;
  int n = d + 2 * b, c = std::min(n - 1, int((x + 1) / 2 * n)) - b, r = std::min(n - 1, int((1 - y) / 2 * n)) - b;
  if (c < 0 || r < 0 || c >= d || r >= d) return 0;
  return (w >> (d * d - 1 - (r * d + c))) & 1;
}
struct Canvas {
  cv::Mat full, view;
  Canvas(int w, int h, bool roi) {
    full = cv::Mat(roi ? h + 9 : h, roi ? w + 13 : w, CV_8UC1, cv::Scalar(roi ? 90 : 255));
    view = roi ? full(cv::Rect(5, 4, w, h)) : full;
    view.setTo(255);
  }
  template <class F> void draw(const M3& Hinv, F f) {
    for (int y = 0; y < view.rows; ++y)
      for (int x = 0; x < view.cols; ++x) {
        double acc = 0;
        bool hit = false;
        for (int a = 0; a < 4; ++a)
          for (int b = 0; b < 4; ++b) {
            Eigen::Vector3d p = Hinv * Eigen::Vector3d(x + (a - 1.5) / 4, y + (b - 1.5) / 4, 1);
            int c = f(p[0] / p[2], p[1] / p[2]);
            hit |= c >= 0;
            acc += c == 0 ? 30 : c == 1 ? 225 : view.at<unsigned char>(y, x);
          }
        if (hit) view.at<unsigned char>(y, x) = (unsigned char)(acc / 16 + 0.5);
      }
  }
};
std::string one(const TagDetection& t) {
  std::vector<std::string> p;
  for (int i = 0; i < 4; ++i) p.push_back(p2(t.p[i]));
  std::vector<std::string> q;
  const int sx[4] = {-1, 1, 1, -1}, sy[4] = {-1, -1, 1, 1};
  for (int i = 0; i < 4; ++i) q.push_back(p2(t.interpolate(sx[i], sy[i])));
  return "{\"id\":" + std::to_string(t.id) + ",\"ham\":" + std::to_string(t.hammingDistance) + ",\"rot\":" + std::to_string(t.rotation) +
         ",\"good\":" + (t.good ? "true" : "false") + ",\"obs\":" + dg(t.obsCode) + ",\"code\":" + dg(t.code) + ",\"p\":" + strs(p) +
         ",\"q\":" + strs(q) + ",\"c\":" + p2(t.cxy) + "}";
}

int main(int argc, char** argv) {
  return run(argc, argv, [&](Line& l) {
    if (l.op == "begin") {
      fam.reset(); det.reset(); uf.reset(); grid.reset(); pts.clear(); april.reset();
      Out("begin").s("id", l.rest());
    } else if (l.op == "table") {
      std::string n = l.w();
      int b = l.i();
      const TagCodes& c = codes(n);
      fam.reset(new TagFamily(c, b));
      det.reset(new TagDetector(c, b));
      std::vector<std::string> s;
      for (W64 w : fam->codes) s.push_back(dg(w));
      Out("table").s("n", n).i("b", b).i("bits", fam->bits).i("dim", fam->dimension).i("min", fam->minimumHammingDistance)
        .i("erb", fam->errorRecoveryBits).i("border", fam->blackBorder).put("codes", strs(s));
    } else if (l.op == "bits") {
      int n = l.i();
      fam->setErrorRecoveryBits(n);
      Out("bits").i("n", n).i("erb", fam->errorRecoveryBits);
    } else if (l.op == "frac") {
      int n = l.i(), d = l.i();
      fam->setErrorRecoveryFraction((float)n / d);
      Out("frac").i("fn", n).i("fd", d).i("erb", fam->errorRecoveryBits);
    } else if (l.op == "dec") {
      W64 w = word(l);
      TagDetection t;
      fam->decode(t, w);
      Out("dec").put("w", dg(w)).i("id", t.id).i("ham", t.hammingDistance).i("rot", t.rotation).b("good", t.good).put("obs", dg(t.obsCode)).put("code", dg(t.code));
    } else if (l.op == "rot") {
      int d = l.i();
      W64 w = word(l);
      Out("rot").i("d", d).put("w", dg(w)).put("r", dg(TagFamily::rotate90(w, d)));
    } else if (l.op == "ham") {
      W64 a = word(l), b = word(l);
      Out("ham").put("a", dg(a)).put("c", dg(b)).i("h", TagFamily::hammingDistance(a, b)).i("pa", TagFamily::popCount(a)).i("pr", TagFamily::popCountReal(a));
    } else if (l.op == "uf") {
      ufn = l.i();
      uf.reset(new UnionFindSimple(ufn));
      Out("uf").i("n", ufn);
    } else if (l.op == "join") {
      int a = l.i(), b = l.i();
      Out("join").i("a", a).i("c", b).i("r", uf->connectNodes(a, b));
    } else if (l.op == "rep") {
      int a = l.i();
      Out("rep").i("a", a).i("r", uf->getRepresentative(a));
    } else if (l.op == "size") {
      int a = l.i();
      Out("size").i("a", a).i("s", uf->getSetSize(a));
    } else if (l.op == "ufsnap") {
      std::vector<int> r, s;
      for (int i = 0; i < ufn; ++i) { s.push_back(uf->getSetSize(i)); r.push_back(uf->getRepresentative(i)); }
      Out("ufsnap").put("r", ints(r)).put("s", ints(s));
    } else if (l.op == "grid") {
      std::vector<float> v = floats(l, 5);
      grid.reset(new Gridder<Pt>(v[0], v[1], v[2], v[3], v[4]));
      pts.clear();
      Out("grid").put("v", nums(v));
    } else if (l.op == "gadd") {
      float x = l.d(), y = l.d();
      pts.emplace_back(new Pt{(int)pts.size() + 1});
      grid->add(x, y, pts.back().get());
      Out("gadd").put("at", p2(P2(x, y)));
    } else if (l.op == "gfind") {
      float x = l.d(), y = l.d(), r = l.d();
      std::vector<int> f;
      Gridder<Pt>::iterator it = grid->find(x, y, r);
      while (it.hasNext()) f.push_back(it.next().i);
      Out("gfind").put("at", p2(P2(x, y))).d("range", r).put("f", ints(f));
    } else if (l.op == "cross") {
      std::vector<float> v = floats(l, 8);
      GLine2D a(P2(v[0], v[1]), P2(v[2], v[3])), b(P2(v[4], v[5]), P2(v[6], v[7]));
      Out("cross").put("v", nums(v)).put("x", p2(a.intersectionWith(b)));
    } else if (l.op == "coord") {
      std::vector<float> v = floats(l, 7);
      GLine2D a(P2(v[0], v[1]), P2(v[2], v[3]));
      float c = a.getLineCoordinate(P2(v[4], v[5]));
      P2 foot = a.getPointOfCoordinate(c), there = a.getPointOfCoordinate(v[6]);
      Out("coord").put("v", nums(v)).d("at", c).put("foot", p2(foot)).put("there", p2(there)).d("back", a.getLineCoordinate(there));
    } else if (l.op == "fit") {
      int n = l.i();
      std::vector<float> v = floats(l, 3 * n);
      std::vector<XYWeight> w;
      for (int i = 0; i < n; ++i) w.push_back(XYWeight(v[3 * i], v[3 * i + 1], v[3 * i + 2]));
      GLine2D g = GLine2D::lsqFitXYW(w);
      GLineSegment2D s = GLineSegment2D::lsqFitXYW(w);
      Out("fit").put("v", nums(v)).put("u", p2(P2(g.getDx(), g.getDy()))).put("at", p2(P2(g.getFirst(), g.getSecond()))).put("p0", p2(s.getP0())).put("p1", p2(s.getP1()));
    } else if (l.op == "mod") {
      float v = l.d();
      Out("mod").d("v", v).d("r", MathUtil::mod2pi(v));
    } else if (l.op == "homo") {
      float cx = l.d(), cy = l.d();
      int n = l.i();
      std::vector<float> v = floats(l, 4 * n);
      Homography33 h(P2(cx, cy));
      std::vector<std::string> p, w;
#ifdef STABLE_H
      std::vector<P2> s, d;
      for (int i = 0; i < n; ++i) { s.push_back(P2(v[4 * i], v[4 * i + 1])); d.push_back(P2(v[4 * i + 2], v[4 * i + 3])); }
      h.setCorrespondences(s, d);
#else
      for (int i = 0; i < n; ++i) h.addCorrespondence(v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3]);
#endif
      for (int i = 0; i < n; ++i) p.push_back(p2(h.project(v[4 * i], v[4 * i + 1])));
      P2 inner = h.project(0.25f, -0.5f);
      Eigen::MatrixXd H = h.getH();
      Out("homo").put("c", p2(P2(cx, cy))).put("v", nums(v)).put("p", strs(p)).put("inner", p2(inner)).m("H", H).put("cxy", p2(h.getCXY()));
    } else if (l.op == "gray") {
      int n = l.i();
      std::vector<float> v = floats(l, 3 * n);
      GrayModel g;
      float early = 0;
      for (int i = 0; i < n; ++i) {
        g.addObservation(v[3 * i], v[3 * i + 1], v[3 * i + 2]);
        if (i == n / 2) early = g.interpolate(0.5f, 0.5f);
      }
      std::vector<float> at;
      for (int i = 0; i < n; ++i) at.push_back(g.interpolate(v[3 * i], v[3 * i + 1]));
      std::vector<float> c = {g.interpolate(0, 0), g.interpolate(1, 0), g.interpolate(0, 1), g.interpolate(1, 1), g.interpolate(0.25f, 0.5f)};
      Out("gray").put("v", nums(v)).put("at", nums(at)).put("at4", nums(c)).d("early", early).i("nobs", g.getNumObservations());
    } else if (l.op == "gauss") {
      float s = l.d();
      int n = l.i();
      Out("gauss").d("sigma", s).i("n", n).put("f", nums(Gaussian::makeGaussianFilter(s, n)));
    } else if (l.op == "filt") {
      int w = l.i(), h = l.i(), nh = l.i(), nv = l.i();
      std::vector<float> fh = floats(l, nh), fv = floats(l, nv), px = floats(l, w * h);
      FloatImage im(w, h, px);
      im.filterFactoredCentered(fh, fv);
      Out("filt").i("w", w).i("h", h).put("fh", nums(fh)).put("fv", nums(fv)).put("in", nums(px)).put("out", nums(im.getFloatImagePixels()));
    } else if (l.op == "norm") {
      int w = l.i(), h = l.i();
      std::vector<float> px = floats(l, w * h);
      FloatImage im(w, h, px);
      im.normalize();
      Out("norm").put("in", nums(px)).put("out", nums(im.getFloatImagePixels()));
    } else if (l.op == "tags") {
      int w = l.i(), h = l.i(), roi = l.i(), n = l.i();
      Canvas c(w, h, roi);
      std::vector<std::string> t;
      for (int k = 0; k < n; ++k) {
        W64 wd = word(l);
        double d[4][2], s[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
        std::vector<std::string> cs;
        for (int i = 0; i < 4; ++i) { d[i][0] = l.d(); d[i][1] = l.d(); cs.push_back("[" + num(d[i][0]) + "," + num(d[i][1]) + "]"); }
        M3 Hi = homography(s, d).inverse();
        int dim = fam->dimension, b = fam->blackBorder;
        c.draw(Hi, [&](double x, double y) { return colour(wd, dim, b, x, y); });
        t.push_back("{\"w\":" + dg(wd) + ",\"p\":" + strs(cs) + "}");
      }
      std::vector<std::string> f;
      for (const TagDetection& x : det->extractTags(c.view)) f.push_back(one(x));
      Out("tags").i("W", w).i("H", h).b("roi", roi).put("t", strs(t)).put("f", strs(f));
    } else if (l.op == "board") {
      std::string k = l.w();
      int w = l.i(), h = l.i(), roi = l.i(), r = l.i(), c = l.i(), sub = l.i();
      using namespace aslam::cameras;
      // the board's extent in its own units: squares, or half the distance of circles
      double L = k == "checker" ? c + 1 : k == "circle" ? 2 * c : 2 * c + 1, M = k == "checker" ? r + 1 : k == "circle" ? 2 * r : r + 1;
      double d[4][2], src[4][2] = {{0, 0}, {L, 0}, {L, M}, {0, M}};
      for (int i = 0; i < 8; ++i) d[i / 2][i % 2] = l.d();
      M3 H = homography(src, d), Hi = H.inverse();
      Canvas cvs(w, h, roi);
      cvs.draw(Hi, [&](double x, double y) {
        if (!(x > 0 && y > 0 && x < L && y < M)) return -1;
        if (k == "checker") return (int(x) + int(y)) % 2 ? -1 : 0;
        for (int i = 0; i < r; ++i)
          for (int j = 0; j < c; ++j) {
            double cx = k == "circle" ? 2 * j + 1 : 2 * j + i % 2 + 1, cy = k == "circle" ? 2 * i + 1 : i + 1, e = k == "circle" ? .6 : .55;
            if ((x - cx) * (x - cx) + (y - cy) * (y - cy) < e * e) return 0;
          }
        return -1;
      });
      std::unique_ptr<GridCalibrationTargetBase> t;
      if (k == "checker") {
        GridCalibrationTargetCheckerboard::CheckerboardOptions o;
        o.doSubpixelRefinement = sub;
        t.reset(new GridCalibrationTargetCheckerboard(r, c, 1, 1, o));
      } else {
        GridCalibrationTargetCirclegrid::CirclegridOptions o;
        o.useAsymmetricCirclegrid = k == "asym";
        t.reset(new GridCalibrationTargetCirclegrid(r, c, 1, o));
      }
      Eigen::MatrixXd pts = Eigen::MatrixXd::Zero(1, 2), at(r * c, 2);
      for (int i = 0; i < r * c; ++i) {
        int y = i / c, x = i % c;
        Eigen::Vector3d q = H * (k == "checker" ? Eigen::Vector3d(x + 1, y + 1, 1) : k == "circle" ? Eigen::Vector3d(2 * x + 1, 2 * y + 1, 1) : Eigen::Vector3d(2 * x + y % 2 + 1, y + 1, 1));
        at.row(i) << q[0] / q[2], q[1] / q[2];
      }
      std::vector<bool> seen(r * c / 2, false);
      bool ok = t->computeObservation(cvs.view, pts, seen);
      std::vector<int> s(seen.begin(), seen.end());
      Out o("board");
      o.s("k", k).i("r", r).i("c", c).b("roi", roi).b("sub", sub).m("at", at).b("ok", ok);
      if (ok) o.put("seen", ints(s)).m("pts", pts);
    } else if (l.op == "april") {
      int r = l.i(), c = l.i();
      double a = l.d(), g = l.d();
      aslam::cameras::GridCalibrationTargetAprilgrid::AprilgridOptions o;
      o.blackTagBorder = border = l.i();
      o.minTagsForValidObs = l.i();
      o.minBorderDistance = l.d();
      o.maxSubpixDisplacement2 = l.d();
      o.doSubpixRefinement = l.i();
      o.showExtractionVideo = false;
      april.reset(new aslam::cameras::GridCalibrationTargetAprilgrid(r, c, a, g, o));
      Out("april").i("rows", r).i("cols", c).d("a", a).d("gap", g).i("border", o.blackTagBorder).i("minTags", o.minTagsForValidObs)
        .d("minBorder", o.minBorderDistance).b("sub", o.doSubpixRefinement).i("size", april->size());
    } else if (l.op == "view") {
      int w = l.i(), h = l.i(), roi = l.i(), r = l.i(), c = l.i();
      double a = l.d(), g = l.d();
      double d[4][2], L = c * a * (1 + g), M = r * a * (1 + g), src[4][2] = {{0, 0}, {L, 0}, {L, M}, {0, M}};
      for (int i = 0; i < 8; ++i) d[i / 2][i % 2] = l.d();
      M3 H = homography(src, d);
      std::map<int, W64> ids;
      std::vector<int> idl;
      int n = l.i();
      // place, word: the place on the board and the word drawn there
      std::vector<std::string> t;
      for (int i = 0; i < n; ++i) { int k = l.i(); W64 x = word(l); ids[k] = x; t.push_back("{\"at\":" + std::to_string(k) + ",\"w\":" + dg(x) + "}"); }
      Canvas cvs(w, h, roi);
      double step = a * (1 + g);
      M3 Hi = H.inverse();
      cvs.draw(Hi, [&](double x, double y) {
        int ix = (int)std::floor(x / step), iy = (int)std::floor(y / step);
        double fx = x - ix * step, fy = y - iy * step;
        if (ix >= 0 && iy >= 0 && ix < c && iy < r && fx <= a && fy <= a)
          return ids.count(iy * c + ix) ? colour(ids[iy * c + ix], 6, border, fx / a * 2 - 1, fy / a * 2 - 1) : -1;
        // the small squares between the tags
        if (fx > a && fy > a && ix >= -1 && iy >= -1 && ix < c && iy < r) return 0;
        return -1;
      });
      Eigen::MatrixXd pts = Eigen::MatrixXd::Zero(1, 2);
      std::vector<bool> seen(april->size(), true);
      bool ok = april->computeObservation(cvs.view, pts, seen);
      std::vector<int> s(seen.begin(), seen.end());
      Eigen::MatrixXd Hm = H;
      Out o("view");
      o.i("W", w).i("H", h).b("roi", roi).i("r", r).i("c", c).m("Hm", Hm).put("t", strs(t)).b("ok", ok);
      if (ok) o.put("seen", ints(s)).m("pts", pts);
    } else throw std::logic_error(l.op);
  });
}
