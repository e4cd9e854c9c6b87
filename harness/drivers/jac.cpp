// Histories of Jacobian containers.
#include "poly.hpp"
#include <aslam_backend/backend/JacobianContainer.hpp>
using namespace poly;
using namespace aslam::backend;

std::vector<std::unique_ptr<Dv>> V;
std::map<std::string, std::unique_ptr<JacobianContainer>> C;
template <class F> bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }

void op(Line& L) {
  const std::string& n = L.op;
  if (n == "begin") {
    C.clear(); V.clear();
    Out("begin").s("id", L.w());
  } else if (n == "var") {                 // var dim active blockindex scaling
    int d = L.i(), a = L.i(), b = L.i();
    double s = L.d();
    V.emplace_back(new Dv("v", Eigen::VectorXd::Zero(d)));
    V.back()->setActive(a); V.back()->setBlockIndex(b); V.back()->setScaling(s);
    Out("var").i("n", d).b("active", a).i("bi", b).d("s", s);
  } else if (n == "act") {
    int v = L.i(), a = L.i();
    V[v]->setActive(a);
    Out("act").i("v", v).b("active", V[v]->isActive());
  } else if (n == "new") {
    std::string c = L.w();
    int r = L.i();
    C[c].reset(new JacobianContainer(r));
    Out("new").s("c", c).i("rows", C[c]->rows());
  } else if (n == "copy") {                // copy from to
    std::string a = L.w(), b = L.w();
    C[b].reset(new JacobianContainer(*C[a]));
    Out("copy").s("a", a).s("b", b);
  } else if (n == "add") {                 // add c v rows cols M
    std::string c = L.w();
    int v = L.i(), r = L.i(), k = L.i();
    Eigen::MatrixXd M = L.m(r, k);
    bool x = throws([&] { C[c]->add(V[v].get(), M); });
    Out("add").s("c", c).i("v", v).m("M", M).i("r", r).i("k", k).b("exc", x);
  } else if (n == "merge") {               // merge c d : c += d
    std::string c = L.w(), d = L.w();
    bool x = throws([&] { C[c]->add(*C[d]); });
    Out("merge").s("c", c).s("d", d).b("exc", x);
  } else if (n == "chain") {               // chain c rows cols M
    std::string c = L.w();
    int r = L.i(), k = L.i();
    Eigen::MatrixXd M = L.m(r, k);
    bool x = throws([&] { C[c]->applyChainRule(M); });
    Out("chain").s("c", c).m("M", M).i("r", r).i("k", k).b("exc", x);
  } else if (n == "clear") {
    std::string c = L.w();
    C[c]->clear();
    Out("clear").s("c", c);
  } else if (n == "reset") {
    std::string c = L.w();
    int r = L.i();
    C[c]->reset(r);
    Out("reset").s("c", c).i("rows", r);
  } else if (n == "view") {                // view c nblocks cumulative..
    std::string c = L.w();
    std::vector<int> bl;
    for (int k = L.i(); k > 0; --k) bl.push_back(L.i());
    JacobianContainer& J = *C[c];
    const JacobianContainer& K = J;
    Out o("view");
    o.s("c", c).i("rows", J.rows()).i("cols", J.cols()).i("n", J.numDesignVariables());
    std::vector<int> ids, it;
    auto id = [](const DesignVariable* d) { for (size_t i = 0; i < V.size(); ++i) if (V[i].get() == d) return (int)i; return -1; };
    for (size_t i = 0; i < J.numDesignVariables(); ++i) { ids.push_back(id(J.designVariable(i))); if (K.designVariable(i) != J.designVariable(i)) ids.push_back(-2); }
    for (auto p = J.begin(); p != J.end(); ++p) it.push_back(id(p->first));
    o.put("ids", ints(ids)).put("it", ints(it));
    size_t nn = J.numDesignVariables();
    o.b("over", throws([&] { J.designVariable(nn); }));
    std::string js = "[";
    for (size_t v = 0; v < V.size(); ++v) {
      std::string one;
      if (throws([&] { one = mat(J.Jacobian(V[v].get())); })) one = "\"none\"";
      js += (v ? "," : "") + one;
    }
    o.put("J", js + "]");
    if (nn) o.m("D", J.asDenseMatrix()).m("S", J.asSparseMatrix().toDense());
    o.m("DB", J.asDenseMatrix(bl)).m("SB", J.asSparseMatrix(bl).toDense()).put("bl", ints(bl));
  } else if (n == "hess") {                // hess c times e[rows] S[rows x rows] nblocks cumulative..
    std::string c = L.w();
    int t = L.i();
    JacobianContainer& J = *C[c];
    Eigen::VectorXd e = L.v();
    Eigen::MatrixXd S = L.m(e.size(), e.size());
    std::vector<int> bl;
    for (int k = L.i(); k > 0; --k) bl.push_back(L.i());
    aslam_sparse_block_matrix::SparseBlockMatrix<Eigen::MatrixXd> H(bl, bl);
    Eigen::VectorXd rhs = Eigen::VectorXd::Zero(bl.back());
    bool x = false;
    for (int k = 0; k < t; ++k) x |= throws([&] { J.evaluateHessian(e, S, H, rhs); });
    Out("hess").s("c", c).i("t", t).v("e", e).m("S", S).put("bl", ints(bl)).b("exc", x).m("H", H.toDense()).v("rhs", rhs);
  } else {
    throw std::logic_error("script: " + n);
  }
}
int main(int argc, char** argv) { return run(argc, argv, op); }
