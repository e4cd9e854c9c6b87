// Least squares problems with polynomial residuals: error terms and
// M-estimators, linear system solvers, and the optimizers.
#include "poly.hpp"
#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/DogLegTrustRegionPolicy.hpp>
#include <aslam_backend/backend/GaussNewtonTrustRegionPolicy.hpp>
#include <aslam_backend/backend/LevenbergMarquardtTrustRegionPolicy.hpp>
#include <aslam_backend/backend/Matrix.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend/backend/Optimizer.hpp>
#include <aslam_backend/backend/Optimizer2.hpp>
#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
#include <sm_property_tree/BoostPropertyTree.hpp>
using namespace poly;
using namespace aslam::backend;

std::unique_ptr<Problem> P;
bool quiet = false;                 // during a run of the optimizer, log what is solved
int failAt = -1, solveCount = 0;    // injected failure of the n-th solve, -2: all
std::vector<int> failSet;
std::string builtAt;

// ------------------------------------------------------------------ solvers
template <class S> struct Spy : public S {
  template <class... A> explicit Spy(A&&... a) : S(std::forward<A>(a)...) {}
  void buildSystem(size_t n, bool m) override {
    S::buildSystem(n, m);
    builtAt = P->state();
  }
  bool solveSystem(Eigen::VectorXd& dx) override {
    int k = solveCount++;
    for (int f : failSet) if (f == k) {   // as the real ones: sized, but no solution
      dx = Eigen::VectorXd::Constant(this->_JCols, std::numeric_limits<double>::quiet_NaN());
      Out("solvefail").i("k", k);
      return false;
    }
    bool ok = S::solveSystem(dx);
    Out("lin").put("at", builtAt.empty() ? "[]" : builtAt).b("ok", ok).v("dx", ok ? dx : Eigen::VectorXd()).v("rhs", this->_rhs).v("cond", this->_diagonalConditioner);
    return ok;
  }
};
typedef boost::shared_ptr<LinearSystemSolver> SolverPtr;
template <class S> SolverPtr mk(bool spy) { return spy ? SolverPtr(new Spy<S>()) : SolverPtr(new S()); }
SolverPtr solver(const std::string& n, bool spy) {
  if (n == "block_cholesky") return mk<BlockCholeskyLinearSystemSolver>(spy);
  if (n == "block_spqr") return SolverPtr(spy ? (LinearSystemSolver*)new Spy<BlockCholeskyLinearSystemSolver>("spqr") : new BlockCholeskyLinearSystemSolver("spqr"));
  if (n == "sparse_cholesky") return mk<SparseCholeskyLinearSystemSolver>(spy);
  if (n == "sparse_qr") return mk<SparseQrLinearSystemSolver>(spy);
  if (n == "dense_qr") return mk<DenseQrLinearSystemSolver>(spy);
  throw std::logic_error("script: no solver " + n);
}

// ----------------------------------------------------------------- policies
template <class T> struct SpyPolicy : public T {
  template <class... A> explicit SpyPolicy(A&&... a) : T(std::forward<A>(a)...) {}
  bool solveSystemImplementation(double J, bool pf, int nt, Eigen::VectorXd& dx) override {
    std::string at = P->state();
    Eigen::VectorXd d;
    bool ok = T::solveSystemImplementation(J, pf, nt, d);
    if (ok) dx = d;
    Out("step").put("x", at).d("J", J).b("pf", pf).b("ok", ok).v("dx", ok ? d : Eigen::VectorXd());
    return ok;
  }
};
boost::shared_ptr<TrustRegionPolicy> policy(const std::string& n, double l0) {
  typedef boost::shared_ptr<TrustRegionPolicy> Q;
  if (n == "gn") return Q(new SpyPolicy<GaussNewtonTrustRegionPolicy>());
  if (n == "lm") return l0 > 0 ? Q(new SpyPolicy<LevenbergMarquardtTrustRegionPolicy>(l0)) : Q(new SpyPolicy<LevenbergMarquardtTrustRegionPolicy>());
  if (n == "dl") return Q(new SpyPolicy<DogLegTrustRegionPolicy>());
  throw std::logic_error("script: no policy " + n);
}

// ------------------------------------------------------------ solver scripts
std::map<std::string, SolverPtr> S;
std::map<std::string, std::string> kinds;
std::vector<DesignVariable*> active;
std::vector<ErrorTerm*> terms;
int rows = 0, cols = 0;

void number(bool all) {
  active.clear(); terms.clear();
  rows = cols = 0;
  for (auto& d : P->dvs) {
    if (!d->isActive()) continue;
    d->setBlockIndex(active.size());
    d->setColumnBase(cols);
    cols += d->minimalDimensions();
    active.push_back(d.get());
  }
  for (auto& e : P->ets) {
    e->et().setRowBase(rows);
    rows += e->et().dimension();
    terms.push_back(&e->et());
  }
}
std::string denseH(const aslam_sparse_block_matrix::SparseBlockMatrix<Eigen::MatrixXd>& h) { return mat(h.toDense()); }

void op(Line& L) {
  const std::string& n = L.op;
  if (n == "begin") {
    S.clear(); kinds.clear();
    P.reset(new Problem());
    builtAt.clear();
    Out("begin").s("id", L.w());
  } else if (n == "dv") {
    P->addDv(L);
  } else if (n == "et") {
    P->addEt(L);
  } else if (n == "set") {
    std::string d = L.w();
    P->dv(d)->x = L.v();
    Out("state").put("x", P->state());
  } else if (n == "number") {
    number(true);
    std::vector<int> rb, cb, bi;
    for (auto e : terms) rb.push_back(e->rowBase());
    for (auto& d : P->dvs) { cb.push_back(d->columnBase()); bi.push_back(d->blockIndex()); }
    Out("number").put("rb", ints(rb)).put("cb", ints(cb)).put("bi", ints(bi));
  } else if (n == "weights") {           // weights kind nparams params n e..
    std::string k = L.w();
    Eigen::VectorXd p = L.v(), e = L.v(), w(e.size());
    auto m = mest(k, std::vector<double>(p.data(), p.data() + p.size()));
    for (int i = 0; i < e.size(); ++i) w(i) = m->getWeight(e(i));
    double cut = 0, wcut = 0;
    if (auto b = dynamic_cast<BlakeZissermanMEstimator*>(m.get())) { cut = b->chi2InvCDF(p(1), (size_t)p(0)); wcut = b->getWeight(cut); }
    Out("weights").s("mk", k).v("mp", p).v("e", e).v("w", w).s("name", m->name()).d("cut", cut).d("wcut", wcut);
  } else if (n == "setmest") {            // setmest i kind nparams params (or clear)
    int i = L.i();
    std::string k = L.w();
    Eigen::VectorXd p = L.v();
    if (k == "clear") P->ets[i]->et().clearMEstimatorPolicy();
    else P->ets[i]->et().setMEstimatorPolicy(mest(k, std::vector<double>(p.data(), p.data() + p.size())));
    Out("setmest").i("i", i).s("mk", k == "clear" ? "none" : k).v("mp", p);
  } else if (n == "setw") {
    int i = L.i();
    std::string k = L.w();
    int d = P->ets[i]->et().dimension();
    Eigen::MatrixXd W = L.m(d, d);
    P->ets[i]->weigh(k, W);
    Out("setw").i("i", i).s("wk", k).m("W", W).m("L", P->ets[i]->sqrtR());
  } else if (n == "eval") {               // eval i : everything one error term says, at the current state
    int i = L.i();
    ErrorTerm& e = P->ets[i]->et();
    Out o("eval");
    double J = e.evaluateError();
    o.i("i", i).d("J", J).d("raw", e.getRawSquaredError()).d("wsq", e.getWeightedSquaredError())
        .d("s0", e.getSquaredError(false)).d("s1", e.getSquaredError(true)).d("w", e.getCurrentMEstimatorWeight())
        .d("wraw", e.getMEstimatorWeight(e.getRawSquaredError())).v("e", e.vsError()).v("e2", P->ets[i]->err());
    Eigen::MatrixXd R;
    e.getInvR(R);
    o.m("invR", R).m("invR2", e.vsInvR()).i("dim", e.dimension());
    number(true);
    std::vector<int> bl;
    int s = 0;
    for (auto d : active) { s += d->minimalDimensions(); bl.push_back(s); }
    JacobianContainer jc(e.dimension());
    e.evaluateJacobians(jc);
    o.m("jac", jc.asSparseMatrix(bl).toDense());
    for (int m = 0; m < 2; ++m) {
      std::string q = m ? "1" : "0";
      Eigen::VectorXd we;
      e.getWeightedError(we, m);
      o.v("we" + q, we);
      JacobianContainer wj(e.dimension());
      e.getWeightedJacobians(wj, m);
      o.m("wj" + q, wj.asSparseMatrix(bl).toDense());
      aslam_sparse_block_matrix::SparseBlockMatrix<Eigen::MatrixXd> H(bl, bl);
      Eigen::VectorXd rhs = Eigen::VectorXd::Zero(s);
      e.buildHessian(H, rhs, m);
      o.put("H" + q, denseH(H)).v("rhs" + q, rhs);
      e.buildHessian(H, rhs, m);      // blocks are added to what is there
      o.put("HH" + q, denseH(H)).v("rrhs" + q, rhs);
    }
    JacobianContainer fd(e.dimension());
    e.evaluateJacobiansFiniteDifference(fd);
    // it differentiates all design variables: keep the active ones, as the analytic one does
    Eigen::MatrixXd F = Eigen::MatrixXd::Zero(e.dimension(), s);
    for (auto it = fd.begin(); it != fd.end(); ++it)
      if (it->first->isActive()) F.middleCols(it->first->columnBase(), it->second.cols()) += it->second;
    o.m("fd", F).put("x", P->state());
  } else if (n == "new") {                // new S kind useDiagonal
    std::string s = L.w(), k = L.w();
    bool d = L.i();
    number(true);
    if (!S.count(s) || kinds[s] != k) { S[s] = solver(k, false); kinds[s] = k; }
    S[s]->initMatrixStructure(active, terms, d);
    Out("new").s("s", s).s("k", k).b("diag", d && k != "sparse_qr").i("rows", S[s]->JRows()).i("cols", S[s]->JCols()).s("name", S[s]->name());
  } else if (n == "errors") {             // errors S threads useM
    std::string s = L.w();
    int t = L.i();
    bool m = L.i();
    double J = 0;
    try { J = S[s]->evaluateError(t, m); }
    catch (const std::exception&) { Out("refused").s("s", s).s("what", "errors").i("t", t); return; }
    Out("errors").s("s", s).i("t", t).b("m", m).d("J", J).v("e", S[s]->e()).put("x", P->state());
  } else if (n == "build") {
    std::string s = L.w();
    int t = L.i();
    bool m = L.i();
    try { S[s]->buildSystem(t, m); }
    catch (const std::exception&) { Out("refused").s("s", s).s("what", "build").i("t", t); return; }
    Out o("build");
    o.s("s", s).i("t", t).b("m", m).v("rhs", S[s]->rhs()).d("rr", S[s]->rhsJtJrhs());
    const Matrix* J = S[s]->Jacobian();
    const Matrix* H = S[s]->Hessian();
    o.b("hasJ", J != 0).b("hasH", H != 0);
    if (auto q = dynamic_cast<SparseQrLinearSystemSolver*>(S[s].get())) { Eigen::MatrixXd D; q->getJacobianTranspose().toDenseInto(D); o.m("Jt", D); }
    if (J) { Eigen::MatrixXd D; J->toDenseInto(D); o.m("J", D); }
    if (H) { Eigen::MatrixXd D; H->toDenseInto(D); o.m("H", D); }
    if (auto b = dynamic_cast<BlockCholeskyLinearSystemSolver*>(S[s].get())) {
      BlockCholeskyLinearSystemSolver::SparseBlockMatrix c; b->copyHessian(c); o.put("Hc", denseH(c)); }
  } else if (n == "fails") {              // fails K how: error term K (from 0) cannot give its residual (1), its Jacobians (2), or can (0)
    int k = L.i(), how = L.i();
    P->ets.at(k)->t.fails = how;
    Out("fails").i("k", k + 1).i("how", how);
  } else if (n == "cond") {               // cond S 1 c | cond S n d..
    std::string s = L.w();
    bool bad = false;
    Eigen::VectorXd d = L.v();
    try {
      if (d.size() == 1 && cols != 1) S[s]->setConstantConditioner(d(0));
      else S[s]->setConditioner(d);
    } catch (const std::exception&) { bad = true; }
    Out("cond").s("s", s).v("d", d).b("exc", bad);
  } else if (n == "solve") {
    std::string s = L.w();
    Eigen::VectorXd dx = Eigen::VectorXd::Constant(2, -77);
    bool ok = S[s]->solveSystem(dx);
    Out o("solve");
    o.s("s", s).b("ok", ok).v("dx", dx).v("rhs", S[s]->rhs()).v("e", S[s]->e());
    if (auto b = dynamic_cast<BlockCholeskyLinearSystemSolver*>(S[s].get())) {
      BlockCholeskyLinearSystemSolver::SparseBlockMatrix c; b->copyHessian(c); o.put("Hc", denseH(c)); }
  } else if (n == "cov") {                // block Cholesky: all covariance blocks
    std::string s = L.w();
    auto b = dynamic_cast<BlockCholeskyLinearSystemSolver*>(S[s].get());
    BlockCholeskyLinearSystemSolver::SparseBlockMatrix c, H;
    std::vector<std::pair<int, int>> w;
    for (size_t i = 0; i < active.size(); ++i) for (size_t j = 0; j < active.size(); ++j) w.push_back({(int)i, (int)j});
    bool exc = false;
    try { b->computeCovarianceBlocks(w, c); } catch (const std::exception&) { exc = true; }
    b->copyHessian(H);
    Out("cov").s("s", s).b("exc", exc).put("P", exc ? "[]" : denseH(c)).put("Hc", denseH(H));
  } else if (n == "qr") {                 // sparse QR: factor, permutation and rank of the system that was built
    std::string s = L.w();
    auto q = dynamic_cast<SparseQrLinearSystemSolver*>(S[s].get());
    q->analyzeSystem();
    Eigen::MatrixXd R;
    q->getR().toDenseInto(R);
    auto p = q->getPermutationVector();
    Out("qr").s("s", s).m("R", R).i("rank", q->getRank()).put("p", ints(std::vector<int>(p.begin(), p.end())));
  } else if (n == "opt") {                // opt policy l0 solver maxit cJ cX threads viaConfig nfail k..
    std::string p = L.w();
    double l0 = L.d();
    std::string k = L.w();
    int maxit = L.i();
    double cJ = L.d(), cX = L.d();
    int t = L.i(), via = L.i();
    failSet.clear();
    for (int c = L.i(); c > 0; --c) failSet.push_back(L.i());
    solveCount = 0;
    builtAt.clear();
    for (auto& d : P->dvs) d->updates = d->reverts = 0;
    auto prob = boost::make_shared<OptimizationProblem>();
    for (auto& d : P->dvs) prob->addDesignVariable(d.get(), false);
    for (auto& e : P->ets) prob->addErrorTerm(&e->et(), false);
    Out("optstart").s("p", p).s("k", k).i("maxit", maxit).d("cJ", cJ).d("cX", cX).i("t", t).put("x", P->state()).d("l0", l0);
    std::streambuf* keep = std::cout.rdbuf(0);
    SolutionReturnValue r;
    std::unique_ptr<Optimizer2> o;
    bool exc = false;
    double J = 0;
    int ndv = -1;
    try {
      if (via) {
        sm::BoostPropertyTree c;
        c.setDouble("convergenceDeltaJ", cJ); c.setDouble("convergenceDeltaX", cX);
        c.setInt("maxIterations", maxit); c.setInt("nThreads", t);
        o.reset(new Optimizer2(c, solver(k, true), policy(p, l0)));
      } else {
        Optimizer2Options c;
        c.convergenceDeltaJ = cJ; c.convergenceDeltaX = cX; c.maxIterations = maxit; c.nThreads = t;
        c.linearSystemSolver = solver(k, true); c.trustRegionPolicy = policy(p, l0);
        o.reset(new Optimizer2(c));
      }
      o->setProblem(prob);
      r = o->optimize();
      J = o->J();
      ndv = o->numDesignVariables();
    } catch (const std::exception& e) { exc = true; }
    std::cout.rdbuf(keep);
    std::vector<int> u;
    for (auto& d : P->dvs) u.push_back(d->updates);
    Out("optend").b("exc", exc).put("x", P->state()).d("JStart", r.JStart).d("JFinal", r.JFinal).i("it", r.iterations).i("fails", r.failedIterations)
        .d("dX", r.dXFinal).d("dJ", r.dJFinal).b("lsf", r.linearSolverFailure).put("updates", ints(u)).i("ndv", ndv).d("J", J);
  } else if (n == "opt1") {               // opt1 how(lm|gn|dl) solver maxit cJ cX schur l0 nmarg name..
    std::string how = L.w(), k = L.w();
    OptimizerOptions c;
    c.maxIterations = L.i();
    c.convergenceDeltaJ = L.d();
    c.convergenceDeltaX = L.d();
    c.doSchurComplement = L.i();
    double l0 = L.d();
    if (l0 > 0) c.levenbergMarquardtLambdaInit = l0;
    else if (l0 < -1) c.levenbergMarquardtEstimateLambdaScale = -1 - l0;
    c.doLevenbergMarquardt = how == "lm";
    c.linearSolver = k;
    for (auto& d : P->dvs) { d->updates = d->reverts = 0; d->setMarginalized(false); }
    for (int m = L.i(); m > 0; --m) P->dv(L.w())->setMarginalized(true);
    auto prob = boost::make_shared<OptimizationProblem>();
    for (auto& d : P->dvs) prob->addDesignVariable(d.get(), false);
    for (auto& e : P->ets) prob->addErrorTerm(&e->et(), false);
    std::streambuf* keep = std::cout.rdbuf(0);
    std::string x0 = P->state();
    SolutionReturnValue r;
    bool exc = false;
    std::string what;
    try {
      Optimizer o(c);
      o.setProblem(prob);
      r = how == "dl" ? o.optimizeDogLeg() : o.optimize();
    } catch (const std::exception& e) { exc = true; what = e.what(); }
    std::cout.rdbuf(keep);
    std::vector<int> u, v;
    for (auto& d : P->dvs) { u.push_back(d->updates); v.push_back(d->reverts); }
    Out("opt1").s("how", how).s("k", k).i("maxit", c.maxIterations).d("cJ", c.convergenceDeltaJ).d("cX", c.convergenceDeltaX).b("exc", exc).s("what", what)
        .put("x0", x0).put("x", P->state()).d("JStart", r.JStart).d("JFinal", r.JFinal).i("it", r.iterations).i("fails", r.failedIterations)
        .d("dX", r.dXFinal).d("dJ", r.dJFinal).put("updates", ints(u)).put("reverts", ints(v));
  } else {
    throw std::logic_error("script: " + n);
  }
}

int main(int argc, char** argv) { return run(argc, argv, op); }
