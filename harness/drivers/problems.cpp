// Histories of the plain, calibration and incremental optimization problems.
#include "vt.hpp"
#include <map>
#include <memory>
#include <set>
#include <boost/make_shared.hpp>
#include <aslam_backend/backend/DesignVariable.hpp>
#include <aslam_backend/backend/ErrorTerm.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend/backend/SimpleOptimizationProblem.hpp>
#include <aslam_incremental_calibration/core/OptimizationProblem.h>
#include <aslam_incremental_calibration/core/IncrementalOptimizationProblem.h>
using namespace vt;
namespace ab = aslam::backend;
namespace ac = aslam::calibration;

std::set<int> deadDv, deadEt;

struct Dv : public ab::DesignVariable {
  int id;
  Eigen::VectorXd x, before;
  Dv(int i, int d) : id(i), x(Eigen::VectorXd::Zero(d)), before(x) {}
  ~Dv() { deadDv.insert(id); }
  void updateImplementation(const double* dp, int size) override { before = x; for (int i = 0; i < size; ++i) x(i) += dp[i]; }
  void revertUpdateImplementation() override { x = before; }
  int minimalDimensionsImplementation() const override { return (int)x.size(); }
  void getParametersImplementation(Eigen::MatrixXd& v) const override { v = x; }
  void setParametersImplementation(const Eigen::MatrixXd& v) override { before = x; x = v; }
  void minimalDifferenceImplementation(const Eigen::MatrixXd& h, Eigen::VectorXd& o) const override { o = x - h; }
  void minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& h, Eigen::VectorXd& o, Eigen::MatrixXd& j) const override { o = x - h; j.setIdentity(x.size(), x.size()); }
};
struct Et : public ab::ErrorTermFs<1> {
  int id;
  Et(int i, const std::vector<ab::DesignVariable*>& v) : id(i) { setDesignVariables(v); }
  ~Et() { deadEt.insert(id); }
  double evaluateErrorImplementation() override { return 0; }
  void evaluateJacobiansImplementation(ab::JacobianContainer&) const override {}
};

// What the problems may come to own is made here and, when nobody owns it, kept here.
std::vector<Dv*> D;
std::vector<Et*> T;
std::map<int, boost::shared_ptr<Dv>> DS;
std::map<int, boost::shared_ptr<Et>> TS;
std::unique_ptr<ab::OptimizationProblem> P;
std::unique_ptr<ab::SimpleOptimizationProblem> S;
std::map<std::string, boost::shared_ptr<ac::OptimizationProblem>> C;
std::unique_ptr<ac::IncrementalOptimizationProblem> I;

template <class F> bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
int idd(const ab::DesignVariable* d) { for (size_t i = 0; i < D.size(); ++i) if (D[i] == d) return i; return -1; }
int ide(const ab::ErrorTerm* d) { for (size_t i = 0; i < T.size(); ++i) if (T[i] == d) return i; return -1; }
boost::shared_ptr<Dv> dsp(int i) { if (!DS.count(i)) DS[i].reset(D[i]); return DS[i]; }
boost::shared_ptr<Et> tsp(int i) { if (!TS.count(i)) TS[i].reset(T[i]); return TS[i]; }

template <class Q> void members(Out& o, Q& p) {
  const Q& q = p;
  std::vector<int> a, b, c, d;
  for (size_t i = 0; i < p.numDesignVariables(); ++i) { a.push_back(idd(p.designVariable(i))); c.push_back(idd(q.designVariable(i))); }
  for (size_t i = 0; i < p.numErrorTerms(); ++i) { b.push_back(ide(p.errorTerm(i))); d.push_back(ide(q.errorTerm(i))); }
  o.put("dvs", ints(a)).put("ets", ints(b)).put("cdvs", ints(c)).put("cets", ints(d));
  bool over = throws([&] { p.designVariable(p.numDesignVariables()); }) && throws([&] { q.designVariable(q.numDesignVariables()); }) &&
              throws([&] { p.errorTerm(p.numErrorTerms()); }) && throws([&] { q.errorTerm(q.numErrorTerms()); });
  o.b("over", over);
}
template <class G> std::string groups(const G& g) {
  std::map<size_t, std::vector<int>> m;
  for (auto& p : g) for (auto& d : p.second) m[p.first].push_back(idd(&*d));
  for (auto& p : g) m[p.first];
  std::string s = "[";
  bool first = true;
  for (auto& p : m) { s += (first ? "" : ",") + ("{\"g\":" + std::to_string(p.first)) + ",\"dvs\":" + ints(p.second) + "}"; first = false; }
  return s + "]";
}
template <class Q> void grouped(Out& o, Q& p) {
  std::vector<int> ord;
  for (auto g : p.getGroupsOrdering()) ord.push_back(g);
  o.put("order", ints(ord)).i("ng", p.getNumGroups()).put("groups", groups(p.getDesignVariablesGroups()));
  std::vector<int> gid, inp, et, dim, one;
  for (auto d : D) {
    int g = -1;
    throws([&] { g = p.getGroupId(d); });
    gid.push_back(g);
    inp.push_back(p.isDesignVariableInProblem(d));
  }
  for (auto e : T) et.push_back(p.isErrorTermInProblem(e));
  for (size_t g = 0; g < 5; ++g) {
    int k = -1, n = -1;
    throws([&] { k = p.getGroupDim(g); });
    throws([&] { n = p.getDesignVariablesGroup(g).size(); });
    dim.push_back(k);
    one.push_back(p.isGroupInProblem(g) ? n : n < 0 ? -1 : -2);
  }
  o.put("gid", ints(gid)).put("in", ints(inp)).put("etin", ints(et)).put("dim", ints(dim)).put("size", ints(one));
}
std::vector<size_t> perm(Line& L) { std::vector<size_t> v; for (int k = L.i(); k > 0; --k) v.push_back(L.i()); return v; }
std::string szs(const std::vector<size_t>& v) { std::vector<int> w(v.begin(), v.end()); return ints(w); }

void op(Line& L) {
  const std::string n = L.op;
  if (n == "begin") {
    I.reset(); C.clear(); P.reset(); S.reset(); TS.clear(); DS.clear();
    for (size_t i = 0; i < D.size(); ++i) if (!deadDv.count(i)) delete D[i];
    for (size_t i = 0; i < T.size(); ++i) if (!deadEt.count(i)) delete T[i];
    D.clear(); T.clear(); deadDv.clear(); deadEt.clear();
    P.reset(new ab::OptimizationProblem); S.reset(new ab::SimpleOptimizationProblem); I.reset(new ac::IncrementalOptimizationProblem);
    Out("begin").s("id", L.w());
  } else if (n == "dv") {
    int d = L.i(), a = L.i();
    D.push_back(new Dv(D.size(), d));
    D.back()->setActive(a);
    Out("dv").i("n", d).b("active", a);
  } else if (n == "et") {
    std::vector<int> ids;
    std::vector<ab::DesignVariable*> v;
    for (int k = L.i(); k > 0; --k) { ids.push_back(L.i()); v.push_back(D[ids.back()]); }
    T.push_back(new Et(T.size(), v));
    Out("et").put("dvs", ints(ids));
  } else if (n == "act") {
    int v = L.i(), a = L.i();
    D[v]->setActive(a);
    Out("act").i("v", v).b("active", a);
  } else if (n == "set") {
    int v = L.i(), x = L.i();
    D[v]->setParameters(Eigen::VectorXd::Constant(D[v]->x.size(), x));
    Out("set").i("v", v).i("x", x);
  } else if (n == "vals") {
    std::vector<int> v;
    for (size_t i = 0; i < D.size(); ++i) v.push_back(deadDv.count(i) ? 0 : (int)D[i]->x(0));
    Out("vals").put("x", ints(v));
  } else if (n == "adddv") {               // adddv P|S v own
    std::string p = L.w();
    int v = L.i(), own = L.i();
    bool x = throws([&] {
      if (own == 2) { if (p == "P") P->addDesignVariable(dsp(v)); else S->addDesignVariable(dsp(v)); }
      else { if (p == "P") P->addDesignVariable(D[v], own); else S->addDesignVariable(D[v], own); }
    });
    Out("adddv").s("p", p).i("v", v).b("own", own == 1).b("exc", x);
  } else if (n == "addet") {
    std::string p = L.w();
    int t = L.i(), own = L.i();
    bool x = throws([&] {
      if (own == 2) { if (p == "P") P->addErrorTerm(tsp(t)); else S->addErrorTerm(tsp(t)); }
      else { if (p == "P") P->addErrorTerm(T[t], own); else S->addErrorTerm(T[t], own); }
    });
    Out("addet").s("p", p).i("t", t).b("own", own == 1).b("exc", x);
  } else if (n == "rmdv") {
    int v = L.i();
    bool x = throws([&] { P->removeDesignVariable(D[v]); });
    Out("rmdv").i("v", v).b("exc", x);
  } else if (n == "rmet") {
    int t = L.i();
    bool x = throws([&] { P->removeErrorTerm(T[t]); });
    Out("rmet").i("t", t).b("exc", x);
  } else if (n == "clear") {
    std::string p = L.w();
    if (p == "P") P->clear(); else if (p == "S") S->clear(); else if (p == "I") I->clear(); else C[p]->clear();
    Out("clear").s("p", p);
  } else if (n == "cnew") {
    std::string c = L.w();
    C[c] = boost::make_shared<ac::OptimizationProblem>();
    Out("cnew").s("c", c);
  } else if (n == "cdv") {
    std::string c = L.w();
    int v = L.i(), g = L.i();
    bool x = throws([&] { C[c]->addDesignVariable(v < 0 ? boost::shared_ptr<Dv>() : dsp(v), g); });
    Out("cdv").s("c", c).i("v", v).i("g", g).b("exc", x);
  } else if (n == "cet") {
    std::string c = L.w();
    int t = L.i();
    bool x = throws([&] { C[c]->addErrorTerm(t < 0 ? boost::shared_ptr<Et>() : tsp(t)); });
    Out("cet").s("c", c).i("t", t).b("exc", x);
  } else if (n == "perme") {               // error terms of C, or the problems of I
    std::string c = L.w();
    auto p = perm(L);
    bool x = throws([&] { if (c == "I") I->permuteOptimizationProblems(p); else C[c]->permuteErrorTerms(p); });
    Out("perme").s("c", c).put("perm", szs(p)).b("exc", x);
  } else if (n == "permd") {
    std::string c = L.w();
    int g = L.i();
    auto p = perm(L);
    bool x = throws([&] { if (c == "I") I->permuteDesignVariables(p, g); else C[c]->permuteDesignVariables(p, g); });
    Out("permd").s("c", c).i("g", g).put("perm", szs(p)).b("exc", x);
  } else if (n == "order") {
    std::string c = L.w();
    auto p = perm(L);
    bool x = throws([&] { if (c == "I") I->setGroupsOrdering(p); else C[c]->setGroupsOrdering(p); });
    Out("order").s("c", c).put("order", szs(p)).b("exc", x);
  } else if (n == "save") {
    std::string c = L.w();
    if (c == "I") I->saveDesignVariables(); else C[c]->saveDesignVariables();
    Out("save").s("c", c);
  } else if (n == "restore") {
    std::string c = L.w();
    if (c == "I") I->restoreDesignVariables(); else C[c]->restoreDesignVariables();
    Out("restore").s("c", c);
  } else if (n == "iadd") {
    std::string c = L.w();
    bool x = throws([&] { I->add(c == "-" ? boost::shared_ptr<ac::OptimizationProblem>() : C[c]); });
    Out("iadd").s("c", c).b("exc", x);
  } else if (n == "irm") {                 // irm idx K | it K | ptr C
    std::string how = L.w();
    std::string c = "";
    int k = -1;
    bool x;
    if (how == "ptr") { c = L.w(); x = throws([&] { I->remove(C[c]); }); }
    else { k = L.i(); x = how == "idx" ? throws([&] { I->remove((size_t)k); }) : throws([&] { I->remove(I->getOptimizationProblemBegin() + k); }); }
    Out("irm").s("how", how).s("c", c).i("k", k).b("exc", x);
  } else if (n == "view") {
    std::string p = L.w();
    Out o("view");
    o.s("p", p);
    std::vector<int> dd(deadDv.begin(), deadDv.end()), de(deadEt.begin(), deadEt.end());
    o.put("deadd", ints(dd)).put("deade", ints(de));
    if (p == "P") {
      members(o, *P);
      std::vector<int> in;
      std::string er = "[";
      for (auto d : D) {
        in.push_back(P->isDesignVariableInProblem(d));
        std::set<ab::ErrorTerm*> s;
        P->getErrors(d, s);
        std::vector<int> e;
        for (auto t : s) e.push_back(ide(t));
        er += (er.size() > 1 ? "," : "") + ints(e);
      }
      int act = P->countActiveDesignVariables();
      o.put("in", ints(in)).put("errs", er + "]").i("nact", act);
    } else if (p == "S") {
      members(o, *S);
      std::vector<int> in;
      for (auto d : D) in.push_back(S->isDesignVariableInProblem(d));
      o.put("in", ints(in));
    } else if (p == "I") {
      members(o, *I);
      grouped(o, *I);
      std::string s = "[", e = "[";
      bool same = I->getOptimizationProblems().size() == I->getNumOptimizationProblems();
      for (size_t k = 0; k < I->getNumOptimizationProblems(); ++k) {
        const ac::IncrementalOptimizationProblem& ci = *I;
        std::string nm = "?";
        for (auto& c : C) if (c.second.get() == I->getOptimizationProblem(k)) nm = c.first;
        s += (k ? "," : "") + str(nm);
        std::vector<int> t;
        for (auto& x : I->getErrorTerms(k)) t.push_back(ide(x.get()));
        e += (k ? "," : "") + ints(t);
        same = same && ci.getOptimizationProblem(k) == I->getOptimizationProblem(k) && I->getOptimizationProblems()[k].get() == I->getOptimizationProblem(k) &&
               I->getOptimizationProblem(I->getOptimizationProblemBegin() + k) == I->getOptimizationProblem(k);
      }
      size_t m = I->getNumOptimizationProblems();
      same = same && throws([&] { I->getOptimizationProblem(m); }) && throws([&] { I->getErrorTerms(m); });
      o.put("probs", s + "]").put("pets", e + "]").b("same", same);
    } else {
      members(o, *C[p]);
      grouped(o, *C[p]);
      std::vector<int> t;
      for (auto& x : C[p]->getErrorTerms()) t.push_back(ide(x.get()));
      o.put("sets", ints(t));
    }
  } else throw std::logic_error("script: " + n);
}
int main(int argc, char** argv) { return run(argc, argv, op); }
