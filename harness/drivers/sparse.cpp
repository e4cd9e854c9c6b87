// Sparse block matrices, compressed column matrices, and the linear solvers and
// marginal covariances on top of them.
#include "vt.hpp"
#include <map>
#include <memory>
#include <set>
#include <aslam_sparse_block_matrix/sparse_block_matrix.h>
#include <aslam_sparse_block_matrix/linear_solver_cholmod.h>
#include <aslam_sparse_block_matrix/linear_solver_dense.h>
#include <aslam_sparse_block_matrix/linear_solver_spqr.h>
#include <aslam_backend/backend/CompressedColumnMatrix.hpp>
#include <aslam_backend/backend/DesignVariable.hpp>
#include <aslam_backend/backend/JacobianContainer.hpp>
using namespace vt;
typedef aslam_sparse_block_matrix::SparseBlockMatrix<Eigen::MatrixXd> SBM;
typedef aslam_sparse_block_matrix::SparseBlockMatrix<Eigen::Matrix2d> SBM2;
using aslam::backend::CompressedColumnMatrix;
typedef CompressedColumnMatrix<int> CCM;

struct Dv : public aslam::backend::DesignVariable {
  int dim_;
  explicit Dv(int d) : dim_(d) {}
  void updateImplementation(const double*, int) override {}
  void revertUpdateImplementation() override {}
  int minimalDimensionsImplementation() const override { return dim_; }
  void getParametersImplementation(Eigen::MatrixXd& v) const override { v.resize(1, 1); v(0, 0) = 0; }
  void setParametersImplementation(const Eigen::MatrixXd&) override {}
  void minimalDifferenceImplementation(const Eigen::MatrixXd&, Eigen::VectorXd&) const override {}
  void minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd&, Eigen::VectorXd&, Eigen::MatrixXd&) const override {}
};

// exact integers as numbers, anything else as a string the specification cannot equal
std::string num_i(double x) {
  if (x == std::floor(x) && std::fabs(x) < 1e9) return std::to_string((long)x);
  return num(x);
}
std::string mat_i(const Eigen::MatrixXd& m) {
  std::string o = "[";
  for (int i = 0; i < m.rows(); ++i) {
    o += i ? ",[" : "[";
    for (int j = 0; j < m.cols(); ++j) o += (j ? "," : "") + num_i(m(i, j));
    o += "]";
  }
  return o + "]";
}
std::string vec_i(const double* p, int n) {
  std::string o = "[";
  for (int i = 0; i < n; ++i) o += (i ? "," : "") + num_i(p[i]);
  return o + "]";
}

std::map<std::string, std::unique_ptr<SBM>> M;
std::map<std::string, std::unique_ptr<CCM>> C;
std::vector<std::unique_ptr<Dv>> dvs;

template <class T> std::string proj(const T& m) {
  std::vector<int> rb(m.rowBlockIndices().begin(), m.rowBlockIndices().end()), cb(m.colBlockIndices().begin(), m.colBlockIndices().end());
  std::string o = "{\"rb\":" + ints(rb) + ",\"cb\":" + ints(cb) + ",\"bl\":[";
  bool first = true;
  for (int c = 0; c < m.bCols(); ++c)
    for (int r = 0; r < m.bRows(); ++r)
      if (m.isBlockSet(r, c)) {
        o += std::string(first ? "" : ",") + "[" + std::to_string(r) + "," + std::to_string(c) + "," + mat_i(*m.block(r, c)) + "]";
        first = false;
      }
  return o + "]}";
}
// every register, so that a changed operand is seen too
std::string state() {
  std::string o = "{";
  for (auto& kv : M) o += (o.size() > 1 ? "," : "") + str(kv.first) + ":" + proj(*kv.second);
  return o + "}";
}
std::string cstate(const CCM& c) {
  Eigen::MatrixXd d;
  c.toDenseInto(d);
  bool same = d.rows() == (int)c.rows() && d.cols() == (int)c.cols();
  for (int i = 0; same && i < d.rows(); ++i)
    for (int j = 0; j < d.cols(); ++j)
      if (c(i, j) != d(i, j) || c.value(i, j) != d(i, j)) same = false;
  return "{\"rows\":" + std::to_string(c.rows()) + ",\"cols\":" + std::to_string(c.cols()) + ",\"nnz\":" + std::to_string(c.nnz()) +
         ",\"dense\":" + mat_i(d) + ",\"ptr\":" + ints(std::vector<int>(c.col_ptr().begin(), c.col_ptr().end())) +
         ",\"ind\":" + ints(std::vector<int>(c.row_ind().begin(), c.row_ind().end())) + ",\"agree\":" + (same ? "true" : "false") + "}";
}

void ccs(Out& o, const SBM& m, bool upper, bool full) {
  int n = m.cols(), nz = (int)m.nonZeros();
  int cap = full ? m.rows() * m.cols() + 1 : nz + 1;
  std::vector<int> p(n + 1, -7), i(cap, -7);
  std::vector<double> x(cap, -7), y(cap, -7);
  int k, k2;
  if (full) {
    k = m.fillUpperTriangleCCS<int>(p.data(), i.data(), x.data());
    k2 = m.fillUpperTriangleCCS<int>(y.data());
  } else {
    k = m.fillCCS<int>(p.data(), i.data(), x.data(), upper);
    k2 = m.fillCCS<int>(y.data(), upper);
  }
  o.i("nz", k).i("nz2", k2).put("p", ints(p));
  o.put("i", ints(std::vector<int>(i.begin(), i.begin() + std::min(k, cap))));
  o.put("x", vec_i(x.data(), std::min(k, cap))).put("y", vec_i(y.data(), std::min(k2, cap)));
}

SBM* reg(const std::string& n) { return M.count(n) ? M[n].get() : 0; }

template <class S> void solveWith(S& s, Out& o, const SBM& A, const Eigen::VectorXd& b, int times) {
  std::string xs = "[";
  bool ok = true;
  for (int t = 0; t < times; ++t) {
    Eigen::VectorXd x(b.size()), bb = b;
    x.setConstant(-77);
    ok = s.solve(A, x.data(), bb.data()) && ok;
    xs += (t ? "," : "") + vec(x);
  }
  o.b("ok", ok).put("xs", xs + "]");
}

void op(Line& L) {
  const std::string& n = L.op;
  if (n == "begin") {
    M.clear(); C.clear(); dvs.clear();
    Out("begin").s("id", L.w());
  } else if (n == "new") {
    std::string d = L.w();
    std::vector<int> rb, cb;
    int a = L.i(); for (int k = 0; k < a; ++k) rb.push_back(L.i());
    int b = L.i(); for (int k = 0; k < b; ++k) cb.push_back(L.i());
    int how = L.i();
    if (how == 0) M[d].reset(new SBM(rb.data(), cb.data(), rb.size(), cb.size()));
    else if (how == 1) M[d].reset(new SBM(rb, cb));
    else { Eigen::VectorXi r(a), c(b); for (int k = 0; k < a; ++k) r[k] = rb[k]; for (int k = 0; k < b; ++k) c[k] = cb[k]; M[d].reset(new SBM(r, c)); }
    Out("new").s("d", d).put("rb", ints(rb)).put("cb", ints(cb)).put("st", state());
  } else if (n == "set") {
    std::string d = L.w(); int r = L.i(), c = L.i();
    Eigen::MatrixXd* b = M[d]->block(r, c, true);
    Eigen::MatrixXd before = b ? *b : Eigen::MatrixXd();
    Eigen::MatrixXd v = L.m(M[d]->rowsOfBlock(r), M[d]->colsOfBlock(c));
    if (b) *b = v;
    Out("set").s("d", d).i("r", r).i("c", c).put("v", mat_i(v)).put("before", mat_i(before)).b("null", !b).put("st", state());
  } else if (n == "getblock") {
    std::string d = L.w(); int r = L.i(), c = L.i();
    Out o("getblock");
    o.s("d", d).i("r", r).i("c", c);
    try { SBM::SparseMatrixBlock* b = M[d]->block(r, c); o.b("null", !b); o.b("set", M[d]->isBlockSet(r, c)); if (b) o.put("v", mat_i(*b)); o.b("exc", false); }
    catch (const std::exception& e) { o.b("exc", true); }
    o.put("st", state());
  } else if (n == "entries") {
    std::string d = L.w();
    SBM& m = *M[d];
    Eigen::MatrixXd e(m.rows(), m.cols());
    for (int i = 0; i < e.rows(); ++i) for (int j = 0; j < e.cols(); ++j) e(i, j) = m(i, j);
    bool out1 = false, out2 = false;
    try { m(m.rows(), 0); } catch (const std::exception&) { out1 = true; }
    try { m(0, -1); } catch (const std::exception&) { out2 = true; }
    Out("entries").s("d", d).put("e", mat_i(e)).put("dense", mat_i(m.toDense())).i("rows", m.rows()).i("cols", m.cols()).i("nz", m.nonZeros())
        .i("nzb", m.nonZeroBlocks()).i("brows", m.bRows()).i("bcols", m.bCols()).b("out1", out1).b("out2", out2).put("st", state());
  } else if (n == "clear") {
    std::string d = L.w(); int de = L.i();
    M[d]->clear(de != 0);
    Out("clear").s("d", d).b("dealloc", de != 0).put("st", state());
  } else if (n == "copy") {
    std::string d = L.w(), s = L.w(), how = L.w();
    if (how == "clone") M[d].reset(M[s]->clone());
    else if (how == "ctor") M[d].reset(new SBM(*M[s]));
    else if (how == "assign") *M[d] = *M[s];
    else if (how == "into") M[s]->cloneInto(*M[d]);
    else if (how == "scaled1") M[d].reset(new SBM(*M[s] * 1.0));
    Out("copy").s("d", d).s("s", s).put("st", state());
  } else if (n == "move") {
    std::string d = L.w(), s = L.w(); int how = L.i();
    if (how == 0) M[d].reset(new SBM(std::move(*M[s])));
    else *M[d] = std::move(*M[s]);
    M.erase(s);
    Out("move").s("d", d).s("s", s).put("st", state());
  } else if (n == "drop") {
    std::string d = L.w();
    M.erase(d);
    Out("drop").s("d", d).put("st", state());
  } else if (n == "slice") {
    std::string d = L.w(), s = L.w(); int a = L.i(), b = L.i(), c = L.i(), e = L.i(), how = L.i();
    if (how == 2) { M[s]->sliceInto(a, b, c, e, *M[d]); }
    else M[d].reset(M[s]->slice(a, b, c, e, how == 1));
    Out("slice").s("d", d).s("s", s).i("rmin", a).i("rmax", b).i("cmin", c).i("cmax", e).i("how", how).put("st", state());
  } else if (n == "transpose") {
    std::string d = L.w(), s = L.w();
    Out o("transpose");
    o.s("d", d).s("s", s).b("fresh", !reg(d));
    SBM* p = reg(d);
    bool ok = M[s]->transpose(p);
    if (!reg(d)) M[d].reset(p);
    o.b("ok", ok).put("st", state());
  } else if (n == "transposed") {
    std::string s = L.w();
    Out("transposed").s("s", s).put("m", proj(M[s]->transpose())).put("st", state());
  } else if (n == "add") {
    std::string d = L.w(), s = L.w();
    Out o("add");
    o.s("d", d).s("s", s).b("fresh", !reg(d));
    SBM* p = reg(d);
    bool ok = M[s]->add(p);
    if (!reg(d) && p) M[d].reset(p);
    o.b("ok", ok).put("st", state());
  } else if (n == "mul") {
    std::string d = L.w(), a = L.w(), b = L.w();
    Out o("mul");
    o.s("d", d).s("a", a).s("b", b).b("fresh", !reg(d));
    SBM* p = reg(d);
    bool ok = M[a]->multiply(p, M[b].get());
    if (!reg(d) && p) M[d].reset(p);
    o.b("ok", ok).put("st", state());
  } else if (n == "times") {
    std::string a = L.w(), b = L.w();
    Out o("times");
    o.s("a", a).s("b", b);
    try { SBM r = (*M[a]) * (*M[b]); o.put("m", proj(r)).b("exc", false); } catch (const std::exception&) { o.b("exc", true); }
    o.put("st", state());
  } else if (n == "scale") {
    std::string d = L.w(); double f = L.d(); int how = L.i();
    if (how == 0) M[d]->scale(f); else *M[d] *= f;
    Out("scale").s("d", d).put("f", num_i(f)).put("st", state());
  } else if (n == "mulvec") {
    std::string s = L.w(); SBM& m = *M[s];
    Eigen::VectorXd x = L.v(m.cols()), y(m.rows()), z(m.cols()), w = L.v(m.rows());
    y.setConstant(99); z.setConstant(99);
    m.multiply(&y, x);
    m.rightMultiply(&z, w);
    double* yd = 0; double* zd = 0;
    m.multiply(yd, x.data());
    m.rightMultiply(zd, w.data());
    Out("mulvec").s("s", s).put("x", vec_i(x.data(), x.size())).put("w", vec_i(w.data(), w.size())).put("y", vec_i(y.data(), y.size()))
        .put("z", vec_i(z.data(), z.size())).put("yd", vec_i(yd, m.rows())).put("zd", vec_i(zd, m.cols())).put("st", state());
    delete[] yd; delete[] zd;
  } else if (n == "perm") {
    std::string d = L.w(), s = L.w(); int up = L.i(); std::vector<int> p;
    for (int k = 0; k < M[s]->bRows(); ++k) p.push_back(L.i());
    Out o("perm");
    o.s("d", d).s("s", s).b("upper", up != 0).put("pinv", ints(p)).b("fresh", !reg(d));
    SBM* q = reg(d);
    bool ok = M[s]->symmPermutation(q, p.data(), up != 0);
    if (!reg(d) && q) M[d].reset(q);
    o.b("ok", ok).put("st", state());
  } else if (n == "ccs") {
    std::string s = L.w(); int mode = L.i();
    Out o("ccs");
    o.s("s", s).i("mode", mode);
    ccs(o, *M[s], mode == 1, mode == 2);
    o.put("st", state());
  } else if (n == "structure") {
    std::string s = L.w();
    aslam_sparse_block_matrix::MatrixStructure ms;
    int times = L.i();
    for (int t = 0; t < times; ++t) M[s]->fillBlockStructure(ms);
    std::vector<int> ap(ms.Ap, ms.Ap + ms.n + 1), ai(ms.Aii, ms.Aii + ap.back());
    Out("structure").s("s", s).i("n", ms.n).i("m", ms.m).put("ap", ints(ap)).put("ai", ints(ai)).put("st", state());
  } else if (n == "fixed2") {
    // blocks of a fixed size: the same operations on another instantiation
    int nb = L.i(), mb = L.i(); std::vector<int> rb, cb;
    for (int k = 1; k <= nb; ++k) rb.push_back(2 * k);
    for (int k = 1; k <= mb; ++k) cb.push_back(2 * k);
    SBM2 a(rb, cb);
    int cnt = L.i();
    for (int k = 0; k < cnt; ++k) { int r = L.i(), c = L.i(); *a.block(r, c, true) = L.m(2, 2); }
    Eigen::VectorXd x = L.v(2 * mb), w = L.v(2 * nb), y(2 * nb), z(2 * mb);
    a.multiply(&y, x); a.rightMultiply(&z, w);
    SBM2* t = 0; a.transpose(t);
    SBM2* at = 0; t->multiply(at, &a);
    SBM2* s = a.slice(0, nb, 0, 1, true);
    SBM2* sum = a.clone(); a.add(sum);
    Out("fixed2").put("a", proj(a)).put("t", proj(*t)).put("ata", proj(*at)).put("sl", proj(*s)).put("sum", proj(*sum)).i("nz", a.nonZeros())
        .put("x", vec_i(x.data(), x.size())).put("w", vec_i(w.data(), w.size())).put("y", vec_i(y.data(), y.size())).put("z", vec_i(z.data(), z.size()));
    delete t; delete at; delete s; delete sum;
  } else if (n == "solve") {
    // solve A x = b from the upper triangle of block matrix s, several times with one solver
    std::string s = L.w(), which = L.w(); int times = L.i();
    SBM& A = *M[s];
    Eigen::VectorXd b = L.v(A.rows());
    Out o("solve");
    o.s("s", s).s("solver", which).put("b", vec_i(b.data(), b.size()));
    using namespace aslam_sparse_block_matrix;
    if (which == "cholmod") { LinearSolverCholmod<Eigen::MatrixXd> q; q.init(); solveWith(q, o, A, b, times); }
    else if (which == "cholmodblock") { LinearSolverCholmod<Eigen::MatrixXd> q; q.init(); q.setBlockOrdering(true); solveWith(q, o, A, b, times); }
    else if (which == "dense") { LinearSolverDense<Eigen::MatrixXd> q; q.init(); solveWith(q, o, A, b, times); }
    else if (which == "spqr") { LinearSolverQr<Eigen::MatrixXd> q; q.init(); solveWith(q, o, A, b, times); }
    else throw std::logic_error("script: solver " + which);
    o.put("st", state());
  } else if (n == "cov") {
    std::string s = L.w(), which = L.w(); SBM& A = *M[s];
    int cnt = L.i();
    std::vector<std::pair<int, int>> want;
    for (int k = 0; k < cnt; ++k) { int r = L.i(), c = L.i(); want.push_back({r, c}); }
    using namespace aslam_sparse_block_matrix;
    std::unique_ptr<LinearSolver<Eigen::MatrixXd>> q;
    { auto* c = new LinearSolverCholmod<Eigen::MatrixXd>(); c->setBlockOrdering(which == "cholmodblock"); q.reset(c); }
    q->init();
    SBM inv; double** blocks = 0;
    bool ok = q->solvePattern(inv, want, A);
    bool ok2 = q->solveBlocks(blocks, A);
    Out o("cov");
    std::string w = "[";
    for (size_t k = 0; k < want.size(); ++k)
      w += (k ? ",[" : "[") + std::to_string(want[k].first) + "," + std::to_string(want[k].second) + "," + (ok && inv.block(want[k].first, want[k].second) ? mat(*inv.block(want[k].first, want[k].second)) : "[]") + "]";
    std::string bl = "[";
    for (int k = 0; k < A.bRows(); ++k) {
      int dd = A.rowsOfBlock(k);
      bl += (k ? "," : "") + (ok2 ? mat(Eigen::Map<Eigen::MatrixXd>(blocks[k], dd, dd)) : std::string("[]"));
    }
    o.s("s", s).s("solver", which).b("ok", ok).b("ok2", ok2).put("want", w + "]").put("blocks", bl + "]").put("st", state());
  }
  // -------------------------------------------------- compressed columns
  else if (n == "cnew") {
    std::string d = L.w(); int r = L.i(), c = L.i();
    C[d].reset(new CCM(r, c, 10, 10));
    Out("cnew").s("d", d).i("r", r).i("c", c).put("m", cstate(*C[d]));
  } else if (n == "cinit") {
    std::string d = L.w(); int r = L.i(), c = L.i();
    C[d]->init(r, c, 10, 10);
    Out("cnew").s("d", d).i("r", r).i("c", c).put("m", cstate(*C[d]));
  } else if (n == "cclear") {
    std::string d = L.w(); C[d]->clear();
    Out("cclear").s("d", d).put("m", cstate(*C[d]));
  } else if (n == "cdense") {
    std::string d = L.w(); Eigen::MatrixXd m = L.m(); double tol = L.d();
    if (tol < 0) C[d]->fromDense(m); else C[d]->fromDenseTolerance(m, tol);
    Out("cdense").s("d", d).put("v", mat_i(m)).i("rows", m.rows()).i("cols", m.cols()).put("tol", num_i(tol)).put("m", cstate(*C[d]));
  } else if (n == "cjac") {
    // append J' of k variables: dimension, column base, active flag and Jacobian of each
    std::string d = L.w(); int how = L.i(), rows = L.i(), k = L.i();
    std::vector<aslam::backend::DesignVariable*> v;
    aslam::backend::JacobianContainer jc(rows);
    std::string js = "[";
    for (int a = 0; a < k; ++a) {
      int dim = L.i(), base = L.i(), block = L.i(), act = L.i();
      dvs.emplace_back(new Dv(dim));
      Dv* q = dvs.back().get();
      q->setActive(act); q->setBlockIndex(block); q->setColumnBase(base);
      v.push_back(q);
      Eigen::MatrixXd J = L.m(rows, dim);
      jc.add(q, J);
      js += std::string(a ? "," : "") + "{\"base\":" + std::to_string(base) + ",\"act\":" + (act ? "true" : "false") + ",\"J\":" + mat_i(J) + "}";
    }
    Out o("cjac");
    o.s("d", d).i("rows", rows).put("js", js + "]");
    try {
      if (how == 0) C[d]->appendJacobians(jc);
      else { auto cp = C[d]->appendJacobiansSymbolic(rows, v); C[d]->writeJacobians(jc, cp); if (how == 2) C[d]->writeJacobians(jc, cp); }
      o.b("exc", false);
    } catch (const std::exception& e) { o.b("exc", true); }
    o.put("m", cstate(*C[d]));
  } else if (n == "cdiag") {
    std::string d = L.w(), how = L.w();
    Out o("cdiag");
    o.s("d", d).s("how", how);
    Eigen::VectorXd v;
    double c = 0;
    if (how == "push" || how == "update") { v = L.v(); o.put("v", vec_i(v.data(), v.size())); }
    else if (how == "pushc" || how == "updatec") { c = L.d(); o.put("c", num_i(c)); }
    try {
      if (how == "push") C[d]->pushDiagonalBlock(v);
      else if (how == "pushc") C[d]->pushConstantDiagonalBlock(c);
      else if (how == "update") C[d]->updateDiagonalBlock(v);
      else if (how == "updatec") C[d]->updateConstantDiagonalBlock(c);
      else C[d]->popDiagonalBlock();
      o.b("exc", false);
    } catch (const std::exception&) { o.b("exc", true); }
    o.put("m", cstate(*C[d]));
  } else if (n == "cmul") {
    std::string d = L.w(); CCM& c = *C[d];
    Eigen::VectorXd x = L.v(), w = L.v(), y, z;
    c.rightMultiply(x, y);
    c.leftMultiply(w, z);
    Out("cmul").s("d", d).put("x", vec_i(x.data(), x.size())).put("w", vec_i(w.data(), w.size())).put("y", vec_i(y.data(), y.size())).put("z", vec_i(z.data(), z.size())).put("m", cstate(c));
  } else if (n == "cview") {
    std::string d = L.w(), e = L.w(); cholmod_sparse cs;
    std::memset(&cs, 0, sizeof cs);
    C[d]->getView(&cs);
    C[e].reset(new CCM());
    C[e]->fromCholmodSparse(&cs);
    Out("cview").s("d", d).s("e", e).put("m", cstate(*C[d])).put("m2", cstate(*C[e]));
  } else throw std::logic_error("script: unknown operation " + n);
}

int main(int argc, char** argv) { return run(argc, argv, op); }
