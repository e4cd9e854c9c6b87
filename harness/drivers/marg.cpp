// Marginalisation of design variables, and the prior it yields.
#include "poly.hpp"
#include <aslam_backend/backend/JacobianContainer.hpp>
#include <aslam_backend/backend/Marginalizer.hpp>
using namespace poly;
using namespace aslam::backend;
std::unique_ptr<Problem> P;
std::map<std::string, boost::shared_ptr<MarginalizationPriorErrorTerm>> M;
int id(const DesignVariable* d) { for (size_t i = 0; i < P->dvs.size(); ++i) if (P->dvs[i].get() == d) return i; return -1; }
void show(Out& o, MarginalizationPriorErrorTerm& p) {
  std::vector<int> ids;
  ErrorTerm& e = p;
  for (size_t i = 0; i < e.numDesignVariables(); ++i) ids.push_back(id(e.designVariable(i)));
  for (int i = 0; i < p.numDesignVariables(); ++i) if (id(p.getDesignVariable(i)) != ids[i]) ids.push_back(-2);
  double J = p.evaluateError();
  JacobianContainer jc(p.dimension());
  p.evaluateJacobians(jc);
  std::string js = "[";
  for (size_t i = 0; i < ids.size(); ++i) js += (i ? "," : "") + mat(e.designVariable(i)->isActive() ? Eigen::MatrixXd(jc.Jacobian(e.designVariable(i))) : Eigen::MatrixXd(p.dimension(), 0));
  o.put("ids", ints(ids)).i("dim", p.dimension()).d("J", J).v("e", p.vsError()).put("js", js + "]").put("x", P->state());
}
void op(Line& L) {
  const std::string n = L.op;
  if (n == "begin") { M.clear(); P.reset(new Problem()); Out("begin").s("id", L.w()); }
  else if (n == "dv") P->addDv(L);
  else if (n == "et") P->addEt(L);
  else if (n == "curve") { std::string d = L.w(); P->dv(d)->q = L.d(); Out("curve").i("v", id(P->dv(d))).d("q", P->dv(d)->q); }
  else if (n == "act") { std::string d = L.w(); P->dv(d)->setActive(L.i()); Out("act").i("v", id(P->dv(d))).b("a", P->dv(d)->isActive()); }
  else if (n == "set") { std::string d = L.w(); P->dv(d)->x = L.v(); Out("state").put("x", P->state()); }
  else if (n == "marg") {                  // marg name nremove useM top n order..  m ets..
    std::string name = L.w();
    int k = L.i(), m = L.i(), top = L.i();
    std::vector<DesignVariable*> dv, topv;
    std::vector<ErrorTerm*> et;
    std::vector<int> ids, eids, tids;
    for (int c = L.i(); c > 0; --c) { ids.push_back(L.i()); dv.push_back(P->dvs[ids.back()].get()); }
    for (int c = L.i(); c > 0; --c) { eids.push_back(L.i()); et.push_back(&P->ets[eids.back()]->et()); }
    for (size_t i = 0; i < P->dvs.size(); ++i) { P->dvs[i]->setBlockIndex(10 + i); P->dvs[i]->setColumnBase(100 + 7 * i); }
    for (size_t i = 0; i < P->ets.size(); ++i) P->ets[i]->et().setRowBase(1000 + 11 * i);
    boost::shared_ptr<MarginalizationPriorErrorTerm> p;
    Eigen::MatrixXd cov;
    std::string exc;
    try { marginalize(dv, et, k, m, p, cov, topv, top, 1); } catch (const std::exception& e) { exc = e.what(); if (exc.empty()) exc = "?"; }
    bool kept = true;
    for (size_t i = 0; i < P->dvs.size(); ++i) kept = kept && P->dvs[i]->blockIndex() == int(10 + i) && P->dvs[i]->columnBase() == int(100 + 7 * i);
    for (size_t i = 0; i < P->ets.size(); ++i) kept = kept && P->ets[i]->et().rowBase() == 1000 + 11 * i;
    for (auto d : topv) tids.push_back(id(d));
    Out o("marg");
    o.s("p", name).i("k", k).b("m", m).i("top", top).put("order", ints(ids)).put("terms", ints(eids)).b("exc", !exc.empty()).s("what", exc.substr(0, 60));
    if (exc.empty()) {
      M[name] = p;
      o.m("cov", cov).put("topv", ints(tids)).b("kept", kept);
      show(o, *p);
    }
  } else if (n == "prior") {
    std::string name = L.w();
    if (!M.count(name)) { Out("none").s("p", name); return; }
    Out o("prior");
    o.s("p", name);
    show(o, *M[name]);
  } else throw std::logic_error("script: " + n);
}
int main(int argc, char** argv) { return run(argc, argv, op); }
