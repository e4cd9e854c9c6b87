// The inertial error terms of kalibr over expression graphs (the operations of expr.cpp, and these).
#define EXPR_ONLY
#include "expr.cpp"
#include <kalibr/AccelerometerError.hpp>
#include <kalibr/EuclideanError.hpp>
#include <kalibr/GyroscopeError.hpp>

struct Term {
  std::unique_ptr<ErrorTerm> et;
  kalibr::EuclideanError* eu = 0;
};
static std::vector<Term> terms;

static void op2(vt::Line& l) {
  if (l.op == "begin") terms.clear();
  if (l.op == "kmake") {  // kmake KIND x(3) invR(9) nodes...
    std::string k = l.w();
    Eigen::Vector3d x = l.v(3);
    Eigen::Matrix3d R = l.m(3, 3);
    std::vector<int> a;
    auto E = [&]() -> const EuclideanExpression& { int i = (int)l.i(); a.push_back(i); return *w->node.at(i - 1).e; };
    auto C = [&]() -> const RotationExpression& { int i = (int)l.i(); a.push_back(i); return *w->node.at(i - 1).r; };
    auto M = [&]() -> const MatrixExpression& { int i = (int)l.i(); a.push_back(i); return *w->node.at(i - 1).m; };
    Term t;
    if (k == "euclidean") { auto& e = E(); t.et.reset(t.eu = new kalibr::EuclideanError(x, R, e)); }
    else if (k == "accel") { auto& c = C(); auto& aw = E(); auto& b = E(); auto& g = E(); t.et.reset(t.eu = new kalibr::AccelerometerError(x, R, c, aw, b, g)); }
    else if (k == "accelsize") {
      auto& m = M(); auto& c = C(); auto& aw = E(); auto& om = E(); auto& al = E(); auto& ci = C();
      auto& rx = E(); auto& ry = E(); auto& rz = E(); auto& b = E(); auto& g = E();
      t.et.reset(t.eu = new kalibr::AccelerometerErrorEccentric(x, R, m, c, aw, om, al, ci, rx, ry, rz, b, g));
    } else if (k == "gyro") { auto& om = E(); auto& b = E(); t.et.reset(t.eu = new kalibr::GyroscopeError(x, R, om, b)); }
    else if (k == "gyronobias") { auto& om = E(); t.et.reset(new kalibr::GyroscopeNoBiasError(x, R, om)); }
    else if (k == "gyrosize") {
      auto& m = M(); auto& ma = M(); auto& c = C(); auto& aw = E(); auto& om = E(); auto& al = E(); auto& ci = C(); auto& r = E(); auto& b = E(); auto& g = E();
      t.et.reset(t.eu = new kalibr::GyroscopeErrorEccentric(x, R, m, ma, c, aw, om, al, ci, r, b, g));
    } else throw std::logic_error("script: term " + k);
    std::vector<int> ids;
    for (size_t j = 0; j < w->dv.size(); ++j)
      for (size_t q = 0; q < t.et->numDesignVariables(); ++q) if (t.et->designVariable(q) == w->dv[j]) { ids.push_back((int)j + 1); break; }
    vt::Out("kmake").s("k", k).put("a", vt::ints(a)).v("x", x).m("R", R).put("dvs", vt::ints(ids)).i("dim", t.et->dimension());
    terms.push_back(std::move(t));
  } else if (l.op == "kerr") {
    int i = (int)l.i();
    Term& t = terms.at(i - 1);
    double c = t.et->evaluateError();
    Eigen::VectorXd e = t.et->vsError();
    JacobianContainer J(3);
    t.et->evaluateJacobians(J);
    double c2 = t.et->evaluateError();
    vt::Out o("kerr");
    o.i("i", i).d("c", c).v("e", e).put("J", jacs(J)).b("same", c == c2 && e == t.et->vsError());
    if (t.eu) o.v("p", t.eu->getPredictedMeasurement()).v("m", t.eu->getMeasurement());
    else o.put("p", "[]").put("m", "[]");
  } else op(l);
}

int main(int argc, char** argv) { return vt::run(argc, argv, op2); }
