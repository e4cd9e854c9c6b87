// Objects written to and read from files through boost serialization.
//
//   make S TYPE seed     put a fresh object in slot S
//   save S F fmt         fmt: bin txt xml
//   load S F fmt
//   cut F bytes          truncate the file (a negative number counts from the end)
#include "vt.hpp"
#include <map>
#include <memory>
#include <random>
#include <boost/filesystem.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/vector.hpp>
#include <sm_boost/serialization.hpp>
#include <sm_eigen/serialization.hpp>
#include <sm_opencv/serialization.hpp>
#include <sm_kinematics/UncertainTransformation.hpp>
#include <sm_kinematics/UncertainHomogeneousPoint.hpp>
#include <sm_kinematics/UncertainVector.hpp>
#include <aslam_time/Time.hpp>
#include <aslam_time/Duration.hpp>
#include <aslam_cameras/frontend_ids.hpp>
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/targets.hpp>
#include <aslam_cameras/Keypoint.hpp>
#include <aslam_cameras/Landmark.hpp>
#include <aslam_cameras/Frame.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetObservation.hpp>
#include <aslam_cameras/cameras/GridDetector.hpp>
#include <aslam_cameras_april/GridCalibrationTargetAprilgrid.hpp>
#include <aslam_cv_serialization/LinkCvSerialization.hpp>
using namespace vt;
using namespace aslam::cameras;
namespace kin = sm::kinematics;

struct R {
  std::mt19937 g;
  int n(int a, int b) { return a + (int)(g() % (unsigned)(b - a + 1)); }
  double d() {
    switch (n(0, 9)) {
      case 0: return n(-3, 3);
      case 1: return -0.0;
      case 2: return std::ldexp(1.0 + g() * 0x1p-32, n(-90, 90));
      case 3: return -0x1p-90 * n(1, 9);
      default: return (double)g() * 0x1p-31 - 1 + g() * 0x1p-53;
    }
  }
  double u(double a, double b) { return a + (b - a) * (g() * 0x1p-32); }
  template <class M> M m(int r, int c) { M x(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) x(i, j) = (typename M::Scalar)d(); return x; }
  uint64_t big() { return n(0, 4) ? ((uint64_t)g() << 32 | g()) : (uint64_t)-1; }
};
struct D {  // what is seen of an object
  std::string s;
  void put(const std::string& x) { s += (s.empty() ? "" : ",") + x; }
  void d(double x) { put(num(x)); }
  void i(long long x) { put(vt::big(x)); }
  void w(const std::string& x) { put(str(x)); }
  template <class M> void m(const Eigen::MatrixBase<M>& x) { i(x.rows()); i(x.cols()); for (int a = 0; a < x.rows(); ++a) for (int b = 0; b < x.cols(); ++b) d((double)x(a, b)); }
};

// -- Eigen
template <class S, int A, int B, int C, int E, int F> void fill(Eigen::Matrix<S, A, B, C, E, F>& x, R& r) {
  typedef Eigen::Matrix<S, A, B, C, E, F> M;
  x = r.m<M>(A < 0 ? r.n(0, 4) : A, B < 0 ? r.n(0, 4) : B);
}
template <class S, int A, int B, int C, int E, int F> void dump(D& o, const Eigen::Matrix<S, A, B, C, E, F>& x) { o.m(x); }
// -- kinematics
Eigen::Vector4d quat(R& r) { Eigen::Vector4d q; do q << r.u(-1, 1), r.u(-1, 1), r.u(-1, 1), r.u(-1, 1); while (q.norm() < .1); return q / q.norm(); }
template <class M> M cov(R& r) { M a; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) a(i, j) = r.u(-1, 1); return a * a.transpose(); }
void fill(kin::Transformation& x, R& r) { x = kin::Transformation(quat(r), Eigen::Vector3d(r.d(), r.d(), r.d())); }
void dump(D& o, const kin::Transformation& x) { o.m(x.q()); o.m(x.t()); o.m(x.T()); }
void fill(kin::UncertainTransformation& x, R& r) { x = kin::UncertainTransformation(quat(r), Eigen::Vector3d(r.u(-9, 9), r.u(-9, 9), r.u(-9, 9)), cov<Eigen::Matrix<double, 6, 6>>(r)); }
void dump(D& o, const kin::UncertainTransformation& x) { o.m(x.q()); o.m(x.t()); o.m(x.U()); }
void fill(kin::HomogeneousPoint& x, R& r) { x = kin::HomogeneousPoint(Eigen::Vector4d(r.d(), r.d(), r.d(), r.d())); }
void dump(D& o, const kin::HomogeneousPoint& x) { o.m(x.toHomogeneous()); }
void fill(kin::UncertainHomogeneousPoint& x, R& r) { x = kin::UncertainHomogeneousPoint(Eigen::Vector4d(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1), r.u(1, 2)), cov<Eigen::Matrix4d>(r)); }
void dump(D& o, const kin::UncertainHomogeneousPoint& x) { o.m(x.toHomogeneous()); o.m(x.U4()); }
template <int N> void fill(kin::UncertainVector<N>& x, R& r) {
  typedef kin::UncertainVector<N> U;
  typename U::value_t v;
  for (int i = 0; i < N; ++i) v[i] = r.d();
  x = U(v, cov<typename U::covariance_t>(r));
}
template <int N> void dump(D& o, const kin::UncertainVector<N>& x) { o.m(x.v()); o.m(x.E()); }
// -- time, ids
void fill(aslam::Time& x, R& r) { x = aslam::Time(r.g(), r.g() % 1000000000u); }
void dump(D& o, const aslam::Time& x) { o.i(x.sec); o.i(x.nsec); }
void fill(aslam::Duration& x, R& r) { x = aslam::Duration((int32_t)r.g(), r.n(0, 999999999)); }
void dump(D& o, const aslam::Duration& x) { o.i(x.sec); o.i(x.nsec); }
template <class I> void fillId(I& x, R& r) { x = I(r.big()); }
void dumpId(D& o, const sm::Id& x) { o.put(ubig(x.getId())); }
void fill(aslam::FrameId& x, R& r) { fillId(x, r); }
void dump(D& o, const aslam::FrameId& x) { dumpId(o, x); }
void fill(aslam::LandmarkId& x, R& r) { fillId(x, r); }
void dump(D& o, const aslam::LandmarkId& x) { dumpId(o, x); }
// -- images
void fill(cv::Mat& x, R& r) {
  static const int types[] = {CV_8UC1, CV_8UC3, CV_16UC1, CV_32FC1, CV_64FC2, CV_32SC4};
  int t = types[r.n(0, 5)], a = r.n(0, 6), b = r.n(0, 6), pad = r.n(0, 1) * r.n(1, 3);
  if (r.n(0, 9) == 0) { x = cv::Mat(); return; }
  cv::Mat big(a + pad, b + pad, t);
  for (int i = 0; i < big.rows; ++i) for (size_t j = 0; j < big.cols * big.elemSize(); ++j) big.ptr(i)[j] = (unsigned char)r.n(0, 255);
  x = pad ? cv::Mat(big, cv::Rect(pad / 2, pad / 3, b, a)) : big;
}
void dump(D& o, const cv::Mat& x) {
  o.i(x.rows); o.i(x.cols);
  if (x.rows * x.cols == 0) return;
  o.i(x.type());
  std::string s;
  static const char* hd = "0123456789abcdef";
  for (int i = 0; i < x.rows; ++i) for (size_t j = 0; j < x.cols * x.elemSize(); ++j) { s += hd[x.ptr(i)[j] >> 4]; s += hd[x.ptr(i)[j] & 15]; }
  o.w(s);
}
void fill(cv::Point2f& x, R& r) { x = cv::Point2f((float)r.u(-9, 9), (float)r.u(0, 1e9)); }
void dump(D& o, const cv::Point2f& x) { o.d(x.x); o.d(x.y); }
void fill(cv::KeyPoint& x, R& r) { x = cv::KeyPoint((float)r.u(0, 9), (float)r.u(0, 9), (float)r.u(0, 9), (float)r.u(0, 360), (float)r.u(0, 1), r.n(0, 5), r.n(-1, 99)); }
void dump(D& o, const cv::KeyPoint& x) { dump(o, x.pt); o.d(x.size); o.d(x.angle); o.d(x.response); o.i(x.octave); o.i(x.class_id); }
void fill(aslam::Image& x, R& r) { x = aslam::Image(1); int n = r.n(1, 3); x.setNumOctaves(n); for (int i = 0; i < n; ++i) fill(x.getOctaveMutable(i), r); }
void dump(D& o, const aslam::Image& x) { try { for (int i = 0; i < 9; ++i) dump(o, x.getOctave(i)); } catch (const std::runtime_error&) { o.w("end"); } }
void fill(ImageMask& x, R& r) { x = ImageMask(); if (r.n(0, 4)) { cv::Mat m(r.n(1, 9), r.n(1, 9), CV_8UC1); for (int i = 0; i < m.rows; ++i) for (int j = 0; j < m.cols; ++j) m.at<unsigned char>(i, j) = r.n(0, 1) * r.n(1, 255); x.setMask(m); } x.setScale(r.u(.25, 2)); }
void dump(D& o, const ImageMask& x) {
  dump(o, x.getMask());
  o.d(x.getScale());
  o.i(x.isSet());
  for (int i = -1; i < 8; ++i) for (int j = -1; j < 8; ++j) o.i(x.isValid(Eigen::Vector2d(i * 1.5, j * 1.5)));
}
// -- cameras
typedef CameraGeometryBase::Ptr Cam;
template <class DD> DD dist(R& r);
template <> NoDistortion dist<NoDistortion>(R&) { return NoDistortion(); }
template <> RadialTangentialDistortion dist<RadialTangentialDistortion>(R& r) { double a = r.u(-.1, .1), b = r.u(-.1, .1), c = r.u(-.1, .1); return RadialTangentialDistortion(a, b, c, r.u(-.1, .1)); }
template <> EquidistantDistortion dist<EquidistantDistortion>(R& r) { double a = r.u(-.1, .1), b = r.u(-.1, .1), c = r.u(-.1, .1); return EquidistantDistortion(a, b, c, r.u(-.1, .1)); }
template <> FovDistortion dist<FovDistortion>(R& r) { return FovDistortion(r.u(.6, 1.4)); }
template <class DD> PinholeProjection<DD> proj(R& r, PinholeProjection<DD>*) { double a = r.u(100, 900), b = r.u(100, 900), c = r.u(100, 900), d = r.u(100, 900); int w = r.n(100, 2000), h = r.n(100, 2000); return PinholeProjection<DD>(a, b, c, d, w, h, dist<DD>(r)); }
template <class DD> OmniProjection<DD> proj(R& r, OmniProjection<DD>*) { double x = r.u(.1, 2), a = r.u(100, 900), b = r.u(100, 900), c = r.u(100, 900), d = r.u(100, 900); int w = r.n(100, 2000), h = r.n(100, 2000); return OmniProjection<DD>(x, a, b, c, d, w, h, dist<DD>(r)); }
template <class DD> ExtendedUnifiedProjection<DD> proj(R& r, ExtendedUnifiedProjection<DD>*) { double x = r.u(.1, .9), y = r.u(.5, 2), a = r.u(100, 900), b = r.u(100, 900), c = r.u(100, 900), d = r.u(100, 900); int w = r.n(100, 2000), h = r.n(100, 2000); return ExtendedUnifiedProjection<DD>(x, y, a, b, c, d, w, h, dist<DD>(r)); }
template <class DD> DoubleSphereProjection<DD> proj(R& r, DoubleSphereProjection<DD>*) { double x = r.u(-.5, .5), y = r.u(.1, .9), a = r.u(100, 900), b = r.u(100, 900), c = r.u(100, 900), d = r.u(100, 900); int w = r.n(100, 2000), h = r.n(100, 2000); return DoubleSphereProjection<DD>(x, y, a, b, c, d, w, h, dist<DD>(r)); }
template <class P> P mkProj(R& r) { return proj(r, (P*)0); }
void fillS(GlobalShutter&, R&) {}
void fillS(RollingShutter& s, R& r) { s = RollingShutter(r.u(0, 1e-3)); }
void fillK(NoMask&, R&) {}
void fillK(ImageMask& m, R& r) { fill(m, r); }
typedef Cam (*Maker)(R&);
template <class P, class S, class K> Cam mkCam(R& r) {
  P p = mkProj<P>(r);
  S s;
  K k;
  fillS(s, r);
  fillK(k, r);
  return Cam(new CameraGeometry<P, S, K>(p, s, k));
}
#define PK(S, K) mkCam<PinholeProjection<NoDistortion>, S, K>, mkCam<PinholeProjection<RadialTangentialDistortion>, S, K>, mkCam<PinholeProjection<EquidistantDistortion>, S, K>, \
  mkCam<OmniProjection<NoDistortion>, S, K>, mkCam<OmniProjection<RadialTangentialDistortion>, S, K>, mkCam<OmniProjection<EquidistantDistortion>, S, K>
const Maker makers[] = {PK(GlobalShutter, NoMask), PK(RollingShutter, NoMask), PK(GlobalShutter, ImageMask), PK(RollingShutter, ImageMask),
  mkCam<PinholeProjection<FovDistortion>, GlobalShutter, NoMask>, mkCam<ExtendedUnifiedProjection<NoDistortion>, GlobalShutter, NoMask>, mkCam<DoubleSphereProjection<NoDistortion>, GlobalShutter, NoMask>};
const int NM = sizeof makers / sizeof *makers;
void fill(Cam& x, R& r) { x = makers[r.n(0, NM - 1)](r); }
void dump(D& o, const Cam& x) {
  if (!x) { o.w("none"); return; }
  o.w(typeid(*x).name());
  Eigen::MatrixXd p;
  for (int i = 0; i < 3; ++i) { x->getParameters(p, i == 0, i == 1, i == 2); o.m(p); }
  o.i(x->width()); o.i(x->height());
  Eigen::VectorXd k(2);
  for (int i = 0; i < 24; ++i) {
    k << (i % 5) * 3.3, (i / 5) * 2.7;
    aslam::Duration t = x->vsTemporalOffset(k);
    o.i(x->vsIsValid(k)); o.i(t.sec); o.i(t.nsec);
  }
}
// -- targets and what is seen of them
typedef GridCalibrationTargetBase::Ptr Tgt;
void fill(Tgt& x, R& r) {
  int a = r.n(2, 5), b = r.n(2, 5);
  double s = r.u(.01, .2), t = r.u(.01, .2);
  int k = r.n(0, 2);
  if (k == 0) { GridCalibrationTargetCheckerboard::CheckerboardOptions o; o.useAdaptiveThreshold = r.n(0, 1); o.windowWidth = r.n(3, 9); o.doSubpixelRefinement = r.n(0, 1); x.reset(new GridCalibrationTargetCheckerboard(a, b, s, t, o)); }
  else if (k == 1) { GridCalibrationTargetCirclegrid::CirclegridOptions o; o.useAsymmetricCirclegrid = r.n(0, 1); x.reset(new GridCalibrationTargetCirclegrid(a, b, s, o)); }
  else { GridCalibrationTargetAprilgrid::AprilgridOptions o; o.minTagsForValidObs = r.n(1, 3); o.doSubpixRefinement = r.n(0, 1); o.maxSubpixDisplacement2 = r.u(0, 4); x.reset(new GridCalibrationTargetAprilgrid(a, b, s, r.u(.1, .5), o)); }
}
void dump(D& o, const Tgt& x) {
  if (!x) { o.w("none"); return; }
  o.w(typeid(*x).name());
  o.i(x->rows()); o.i(x->cols()); o.i(x->size());
  o.m(x->points());
}
void fill(GridCalibrationTargetCheckerboard::CheckerboardOptions& o, R& r) { o.useAdaptiveThreshold = r.n(0, 1); o.normalizeImage = r.n(0, 1); o.performFastCheck = r.n(0, 1); o.filterQuads = r.n(0, 1); o.doSubpixelRefinement = r.n(0, 1); o.showExtractionVideo = r.n(0, 1); o.windowWidth = r.n(0, 99); }
void dump(D& d, const GridCalibrationTargetCheckerboard::CheckerboardOptions& o) { d.i(o.useAdaptiveThreshold); d.i(o.normalizeImage); d.i(o.performFastCheck); d.i(o.filterQuads); d.i(o.doSubpixelRefinement); d.i(o.showExtractionVideo); d.i(o.windowWidth); }
void fill(GridCalibrationTargetCirclegrid::CirclegridOptions& o, R& r) { o.useAsymmetricCirclegrid = r.n(0, 1); o.showExtractionVideo = r.n(0, 1); }
void dump(D& d, const GridCalibrationTargetCirclegrid::CirclegridOptions& o) { d.i(o.useAsymmetricCirclegrid); d.i(o.showExtractionVideo); }
void fill(GridCalibrationTargetAprilgrid::AprilgridOptions& o, R& r) { o.doSubpixRefinement = r.n(0, 1); o.maxSubpixDisplacement2 = r.d(); o.showExtractionVideo = r.n(0, 1); o.minTagsForValidObs = r.n(0, 99); o.minBorderDistance = r.d(); o.blackTagBorder = r.n(0, 9); }
void dump(D& d, const GridCalibrationTargetAprilgrid::AprilgridOptions& o) { d.i(o.doSubpixRefinement); d.d(o.maxSubpixDisplacement2); d.i(o.showExtractionVideo); d.i(o.minTagsForValidObs); d.d(o.minBorderDistance); d.i(o.blackTagBorder); }
void fill(GridDetector::GridDetectorOptions& o, R& r) { o.plotCornerReprojection = r.n(0, 1); o.imageStepping = r.n(0, 1); o.filterCornerOutliers = r.n(0, 1); o.filterCornerSigmaThreshold = r.d(); o.filterCornerMinReprojError = r.d(); }
void dump(D& d, const GridDetector::GridDetectorOptions& o) { d.i(o.plotCornerReprojection); d.i(o.imageStepping); d.i(o.filterCornerOutliers); d.d(o.filterCornerSigmaThreshold); d.d(o.filterCornerMinReprojError); }
typedef GridCalibrationTargetObservation Obs;
void fill(Obs& x, R& r) {
  Tgt t;
  fill(t, r);
  cv::Mat im(r.n(1, 5), r.n(1, 5), CV_8UC1);
  for (int i = 0; i < im.rows; ++i) for (int j = 0; j < im.cols; ++j) im.at<unsigned char>(i, j) = r.n(0, 255);
  x = Obs(t);
  if (r.n(0, 2)) { x.setImage(im); if (!r.n(0, 2)) x.clearImage(); }
  for (size_t i = 0; i < t->size(); ++i) if (r.n(0, 2)) x.updateImagePoint(i, Eigen::Vector2d(r.d(), r.d()));
  for (size_t i = 0; i < t->size(); ++i) if (!r.n(0, 4)) x.removeImagePoint(i);
  if (r.n(0, 1)) { kin::Transformation T; fill(T, r); x.set_T_t_c(T); }
  aslam::Time s;
  fill(s, r);
  x.setTime(s);
}
void dump(D& o, const Obs& c) {
  Obs& x = const_cast<Obs&>(c);
  dump(o, Tgt(x.target()));
  std::vector<unsigned> ix;
  x.getCornersIdx(ix);
  for (unsigned i : ix) o.i(i);
  for (size_t i = 0; x.target() && i < x.target()->size(); ++i) { Eigen::Vector2d p; if (x.imagePoint(i, p)) o.m(p); }
  o.m(x.points());
  o.m(x.T_t_c().T()); dump(o, x.time()); dump(o, x.image()); o.i(x.imRows()); o.i(x.imCols()); o.i(x.hasSuccessfulObservation());
  Cam cam(new PinholeCameraGeometry(PinholeProjection<NoDistortion>(500, 500, 320, 240, 640, 480)));
  std::vector<cv::Point2f> rp;
  try { x.getCornerReprojection(cam, rp); o.i(rp.size()); } catch (const std::exception&) { o.w("no pose"); }
}
struct Det { GridDetector d; };
void fill(GridDetector& x, R& r) { Cam c; Tgt t; fill(c, r); fill(t, r); GridDetector::GridDetectorOptions o; o.filterCornerOutliers = r.n(0, 1); o.filterCornerSigmaThreshold = r.u(1, 3); x = GridDetector(c, t, o); }
void dump(D& o, const GridDetector& x) { dump(o, Cam(x.geometry())); dump(o, Tgt(x.target())); }
// -- features
typedef aslam::Keypoint<2> Kp;
void fill(Kp& x, R& r) {
  x = Kp();
  x.setMeasurement(Eigen::Vector2d(r.d(), r.d()));
  Eigen::Matrix2d m;
  m << r.d(), r.d(), r.d(), r.d();
  x.setInverseMeasurementCovariance(m);
  if (r.n(0, 1)) x.setLandmarkId(aslam::LandmarkId(r.big()));
  if (r.n(0, 1)) { kin::UncertainHomogeneousPoint p; fill(p, r); x.setLandmark(p); }
  if (r.n(0, 1)) { kin::UncertainVector<3> v; fill(v, r); x.setBackProjection(v); }
  x.setOctave(r.n(0, 7));
}
void dump(D& o, const Kp& x) {
  o.m(x.y()); o.m(x.invR()); dump(o, x.landmarkId()); o.i(x.octave());
  o.i(x.isLandmarkInitialized());
  if (x.isLandmarkInitialized()) dump(o, x.landmark());
  o.i(x.isBackProjectionSet());
  if (x.isBackProjectionSet()) dump(o, *x.backProjection());
  o.i(!!x.descriptor());
}
void fill(aslam::Landmark& x, R& r) { x = aslam::Landmark(); kin::UncertainHomogeneousPoint p; fill(p, r); x.setPoint(p); x.setLandmarkId(aslam::LandmarkId(r.big())); x.setFrameId(r.big()); }
void dump(D& o, const aslam::Landmark& x) { dump(o, x.point()); dump(o, x.landmarkId()); o.put(ubig(x.frameId())); o.i(!!x.descriptor()); }
// (frames are written by value: the registration of the frame classes is not part of the library as built)
template <class G> void fillF(aslam::Frame<G>& x, R& r, Maker mk) {
  if (r.n(0, 4)) x.setGeometry(boost::dynamic_pointer_cast<G>(mk(r))); else x.clearGeometry();
  x.setId(aslam::FrameId(r.big()));
  aslam::Time t;
  fill(t, r);
  x.setTime(t);
  cv::Mat m;
  if (r.n(0, 1)) fill(m, r);
  x.setImage(m);
  x.clearKeypoints();
  for (int n = r.n(0, 3); n > 0; --n) { Kp k; fill(k, r); x.addKeypoint(k); }
}
typedef aslam::Frame<PinholeCameraGeometry> Fr0;
typedef aslam::Frame<DistortedOmniRsCameraGeometry> Fr1;
typedef aslam::Frame<MaskedEquidistantDistortedPinholeCameraGeometry> Fr2;
void fill(Fr0& x, R& r) { fillF(x, r, makers[0]); }
void fill(Fr1& x, R& r) { fillF(x, r, makers[10]); }
void fill(Fr2& x, R& r) { fillF(x, r, makers[14]); }
template <class G> void dump(D& o, const aslam::Frame<G>& x) {
  dumpId(o, x.id()); dump(o, x.time()); dump(o, Cam(x.geometryPtr()));
  dump(o, x.image());
  o.i(x.numKeypoints());
  for (size_t i = 0; i < x.numKeypoints(); ++i) dump(o, x.keypoint(i));
}
// -- lists of objects
template <class T> void fill(std::vector<T>& x, R& r) { x.resize(r.n(0, 3)); for (auto& e : x) fill(e, r); }
template <class T> void dump(D& o, const std::vector<T>& x) { o.i(x.size()); for (auto& e : x) dump(o, e); }

struct Box {
  virtual ~Box() {}
  virtual void make(R& r) = 0;
  virtual void see(D& o) = 0;
  virtual void save(const std::string& p, const std::string& f) = 0;
  virtual void load(const std::string& p, const std::string& f) = 0;
};
namespace bs = sm::boost_serialization;
template <class T> struct BoxT : Box {
  T x;
  void make(R& r) { fill(x, r); }
  void see(D& o) { dump(o, (const T&)x); }
  void save(const std::string& p, const std::string& f) { if (f == "bin") bs::save(x, p); else if (f == "txt") bs::save_txt(x, p); else bs::save_xml(x, "object", p); }
  void load(const std::string& p, const std::string& f) { if (f == "bin") bs::load(x, p); else if (f == "txt") bs::load_txt(x, p); else bs::load_xml(x, "object", p); }
};
template <class T> struct BoxD : BoxT<T> {};
Box* mkBox(const std::string& t) {
#define T(N, ...) if (t == N) return new BoxT<__VA_ARGS__>;
  T("MatrixXd", Eigen::MatrixXd) T("VectorXd", Eigen::VectorXd) T("RowVectorXd", Eigen::RowVectorXd) T("Matrix3d", Eigen::Matrix3d)
  T("Matrix2Xd", Eigen::Matrix<double, 2, Eigen::Dynamic>) T("MatrixX3d", Eigen::Matrix<double, Eigen::Dynamic, 3>) T("MatrixXi", Eigen::MatrixXi) T("RowMajor", Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>) T("MatrixXf", Eigen::MatrixXf)
  T("Transformation", kin::Transformation) T("UncertainTransformation", kin::UncertainTransformation) T("HomogeneousPoint", kin::HomogeneousPoint) T("UncertainHomogeneousPoint", kin::UncertainHomogeneousPoint) T("UncertainVector3", kin::UncertainVector<3>) T("UncertainVector2", kin::UncertainVector<2>)
  T("Time", aslam::Time) T("Duration", aslam::Duration) T("FrameId", aslam::FrameId) T("LandmarkId", aslam::LandmarkId)
  T("Mat", cv::Mat) T("Point2f", cv::Point2f) T("KeyPoint", cv::KeyPoint) T("Image", aslam::Image) T("ImageMask", ImageMask)
  T("Camera", Cam) T("Target", Tgt) T("Observation", Obs) T("Detector", GridDetector)
  T("CheckerOptions", GridCalibrationTargetCheckerboard::CheckerboardOptions) T("CircleOptions", GridCalibrationTargetCirclegrid::CirclegridOptions) T("AprilOptions", GridCalibrationTargetAprilgrid::AprilgridOptions) T("DetectorOptions", GridDetector::GridDetectorOptions)
  T("Keypoint", Kp) T("Landmark", aslam::Landmark) T("Frame0", Fr0) T("Frame1", Fr1) T("Frame2", Fr2)
  T("Transformations", std::vector<kin::Transformation>) T("Cameras", std::vector<Cam>) T("Observations", std::vector<Obs>) T("Times", std::vector<aslam::Time>)
#undef T
  throw std::runtime_error("unknown type " + t);
}
std::map<std::string, std::unique_ptr<Box>> S;

int main(int argc, char** argv) {
  aslam::linkCvSerialization();
  char tmp[] = "/tmp/serXXXXXX";
  boost::filesystem::path dir = mkdtemp(tmp);
  auto path = [&](const std::string& f) { return (dir / f).string(); };
  auto bytes = [&](const std::string& f) { std::ifstream in(path(f).c_str(), std::ios::binary); return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()); };
  int rc = run(argc, argv, [&](Line& l) {
    if (l.op == "begin") {
      S.clear();
      for (boost::filesystem::directory_iterator i(dir), e; i != e; ++i) boost::filesystem::remove(i->path());
      Out("begin").s("id", l.rest());
      return;
    }
    std::string s = l.w();
    Out o(l.op);
    if (l.op == "cut") {
      long long c = l.ll();
      std::string t = bytes(s);
      if (c < 0) c += t.size();
      c = std::max(0ll, std::min<long long>(c, t.size()));
      boost::filesystem::resize_file(path(s), c);
      // does the text that is left still hold the beginning of the last word?
      size_t e = t.find_last_not_of(" \n");
      size_t b = e == std::string::npos ? 0 : t.find_last_of(" \n", e);
      b = b == std::string::npos ? 0 : b + 1;
      o.s("f", s).i("at", c).i("size", t.size()).b("word", (size_t)c > b);
      return;
    }
    o.s("s", s);
    bool threw = false;
    if (l.op == "make") {
      std::string t = l.w();
      R r;
      r.g.seed(l.i());
      o.s("t", t);
      S[s].reset(mkBox(t));
      S[s]->make(r);
    } else {
      std::string f = l.w(), k = l.w();
      o.s("f", f).s("k", k);
      try { if (l.op == "save") S.at(s)->save(path(f), k); else S.at(s)->load(path(f), k); }
      catch (const std::exception& e) { threw = true; if (getenv("SERDBG")) std::cerr << e.what() << "\n"; }
      if (l.op == "save") o.i("size", bytes(f).size());
    }
    D d;
    if (l.op == "load" && threw) { S.erase(s); }  // nothing is promised about the object itself
    else S.at(s)->see(d);
    o.b("threw", threw).put("d", "[" + d.s + "]");
  });
  boost::filesystem::remove_all(dir);
  return rc;
}
