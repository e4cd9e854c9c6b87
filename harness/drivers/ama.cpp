// Matrix archives: named matrices and strings, kept in files.  Names and strings are hex bytes, "-" if empty.
//
//   new A | set A how name ..   how: matrix r c x.. | xd r c x.. | vector n x.. | vxd n x.. | scalar x | string hex | create r c over x..
//   get A how name | clear A name | clearall A | copy A B
//   save A F n names.. | stream A F n names.. | append A F n names.. | load A F n names..
//   cut F bytes | damage F block field
#include "vt.hpp"
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <boost/filesystem.hpp>
#include <sm_matrix_archive/MatrixArchive.hpp>
using namespace vt;
typedef sm::MatrixArchive MA;

std::string unhex(const std::string& h) { std::string s; if (h != "-") for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)std::stoi(h.substr(i, 2), 0, 16); return s; }
std::string codes(const std::string& s) { std::vector<int> v; for (unsigned char c : s) v.push_back(c); return ints(v); }
std::map<std::string, MA> A;
boost::filesystem::path dir;
std::string path(const std::string& f) { return (dir / f).string(); }

// What a damaged file made of a matrix can be huge: no script asks for more than 4096 elements, so the values no longer matter then.
std::string shape(const Eigen::MatrixXd& m) { return m.size() > 4096 ? "{\"r\":" + std::to_string(m.rows()) + ",\"c\":" + std::to_string(m.cols()) + ",\"x\":[]}" : "{\"r\":" + std::to_string(m.rows()) + ",\"c\":" + std::to_string(m.cols()) + ",\"x\":" + vec(Eigen::Map<const Eigen::VectorXd>(m.data(), m.size())) + "}"; }
void dump(Out& o, const std::string& n) {
  const MA& a = A[n];
  std::string s = "[";
  for (auto i = a.begin(); i != a.end(); ++i) s += (s.size() > 1 ? "," : "") + ("[" + codes(i->first)) + "," + shape(i->second) + "]";
  o.put("ms", s + "]");
  s = "[";
  for (auto& i : a.getStrings()) s += (s.size() > 1 ? "," : "") + ("[" + codes(i.first)) + "," + codes(i.second) + "]";
  o.put("ss", s + "]").i("nm", a.sizeMatrices()).i("ns", a.sizeStrings()).i("n", a.size());
}
template <class F> void act(Out& o, F f) {
  std::string e = "";
  try { f(); }
  catch (const sm::MatrixArchiveException&) { e = "archive"; }
  catch (const std::exception&) { e = "other"; }
  o.s("ex", e);
}
std::set<std::string> names(Line& l, Out& o) {
  std::set<std::string> s;
  std::vector<std::string> v;
  for (int n = l.i(); n > 0; --n) v.push_back(unhex(l.w()));
  std::string j = "[";
  for (auto& x : v) j += (j.size() > 1 ? "," : "") + codes(x);
  o.put("names", j + "]");
  return std::set<std::string>(v.begin(), v.end());
}
long long fsize(const std::string& F) { return boost::filesystem::exists(path(F)) ? (long long)boost::filesystem::file_size(path(F)) : -1; }

int main(int argc, char** argv) {
  char tmp[] = "/tmp/amaXXXXXX";
  dir = mkdtemp(tmp);
  int rc = run(argc, argv, [&](Line& l) {
    if (l.op == "begin") {
      A.clear();
      for (boost::filesystem::directory_iterator i(dir), e; i != e; ++i) boost::filesystem::remove(i->path());
      Out("begin").s("id", l.rest());
      return;
    }
    std::string n = l.w();
    Out o(l.op);
    o.s("a", n);
    if (l.op == "cut") {
      long long c = l.ll(), s = fsize(n);
      if (s >= 0 && c < s) boost::filesystem::resize_file(path(n), c);
      o.i("at", c).i("size", s);
      return;
    }
    if (l.op == "damage") {
      int b = l.i();
      std::string f = l.w();
      std::string t;
      { std::ifstream in(path(n).c_str(), std::ios::binary); t.assign(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()); }
      size_t p = 0;
      bool ok = true;
      auto u32 = [&](size_t q) { unsigned x = 0; if (q + 4 > t.size()) ok = false; else memcpy(&x, &t[q], 4); return (size_t)x; };
      for (int i = 0; ok; ++i) {
        if (p >= t.size() || (t[p] != 'A' && t[p] != 'S')) { ok = false; break; }
        bool m = t[p] == 'A';
        size_t len = m ? 33 + 8 + u32(p + 33) * u32(p + 37) * 8 + 1 : 33 + 4 + u32(p + 33) + 1;
        if (!ok || p + len > t.size() || t[p + len - 1] != 'B') { ok = false; break; }
        if (i == b) {
          if (f == "start") t[p] = 'Q';
          else if (f == "end") t[p + len - 1] = 0;
          else if (f == "name") t[p + 32] = '!';
          else if (f == "rows") { t[p + 36] = 0x7f; if (m && u32(p + 37) == 0) ok = false; }
          else if (m) { t[p + 40] = 0x7f; if (u32(p + 33) == 0) ok = false; }
          else t[p + 36] = 0x7f;
          break;
        }
        p += len;
      }
      if (ok) { std::ofstream out(path(n).c_str(), std::ios::binary); out << t; }
      o.i("b", b).s("field", f).b("done", ok);
      return;
    }
    if (l.op == "new") A[n] = MA();
    else if (l.op == "copy") { std::string m = l.w(); o.s("from", m); MA c = A[m]; A[n] = c; }
    else if (l.op == "clearall") A[n].clear();
    else if (l.op == "clear") { std::string k = unhex(l.w()); o.put("k", codes(k)); A[n].clear(k); }
    else if (l.op == "set") {
      std::string how = l.w(), k = unhex(l.w());
      o.s("how", how).put("k", codes(k));
      if (how == "string") { std::string x = unhex(l.w()); o.put("x", codes(x)); act(o, [&] { A[n].setString(k, x); }); }
      else {
        int r = 1, c = 1, over = 1;
        if (how == "matrix" || how == "xd") { r = l.i(); c = l.i(); }
        else if (how == "vector" || how == "vxd") r = l.i();
        else if (how == "create") { r = l.i(); c = l.i(); over = l.i(); }
        Eigen::MatrixXd M(r, c);
        for (int i = 0; i < M.size(); ++i) M.data()[i] = l.d();
        o.put("x", shape(M)).i("over", over);
        act(o, [&] {
          if (how == "matrix") A[n].setMatrix(k, M);
          else if (how == "xd") A[n].setMatrixXd(k, M);
          else if (how == "vector") A[n].setVector(k, M);
          else if (how == "vxd") A[n].setVectorXd(k, M);
          else if (how == "scalar") A[n].setScalar(k, M(0, 0));
          else A[n].createMatrix(k, r, c, over) = M;
        });
      }
    } else if (l.op == "get") {
      std::string how = l.w(), k = unhex(l.w());
      o.s("how", how).put("k", codes(k));
      const MA& ca = A[n];
      if (how == "matrix") act(o, [&] { Eigen::MatrixXd y; ca.getMatrix(k, y); if (!(shape(y) == shape(ca.getMatrix(k))) || shape(y) != shape(A[n].getMatrix(k))) throw std::logic_error("differs"); o.put("y", shape(y)); });
      else if (how == "vector") act(o, [&] { Eigen::VectorXd y; ca.getVector(k, y); o.put("y", shape(y)); });
      else if (how == "scalar") act(o, [&] { double y, z = ca.getScalar(k); ca.getScalar(k, y); if (num(y) != num(z)) throw std::logic_error("differs"); o.put("y", shape(Eigen::MatrixXd::Constant(1, 1, y))); });
      else if (how == "string") act(o, [&] { std::string y, z = ca.getString(k); ca.getString(k, y); if (y != z || z != A[n].getString(k)) throw std::logic_error("differs"); o.put("y", codes(y)); });
      else act(o, [&] { o.b("y", ca.find(k) != ca.end()); });
    } else {
      std::string F = l.w();
      o.s("f", F);
      std::set<std::string> v = names(l, o);
      const MA& ca = A[n];
      if (l.op == "save") act(o, [&] { if (v.empty()) ca.save(path(F)); else ca.save(boost::filesystem::path(path(F)), v); });
      else if (l.op == "stream") act(o, [&] { std::ofstream f(path(F).c_str(), std::ios::binary); ca.save(f, v); });
      else if (l.op == "append") act(o, [&] { if (v.empty()) ca.append(path(F)); else ca.append(boost::filesystem::path(path(F)), v); });
      else if (l.op == "load") act(o, [&] { if (v.empty()) A[n].load(path(F)); else A[n].load(boost::filesystem::path(path(F)), v); });
      else throw std::logic_error(l.op);
      o.i("size", fsize(F));
    }
    dump(o, n);
  });
  boost::filesystem::remove_all(dir);
  return rc;
}
