// Property trees, their child namespaces and the files they are kept in.  Strings are hex bytes, "-" if empty.
//
//   tree N base | child N P ns | copy N P
//   set N T key value | get N T key | getd N T key default const | exist N key      T: d i b s
//   save N fmt F | load N fmt F | junk F bytes
#include "vt.hpp"
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <boost/filesystem.hpp>
#include <sm_property_tree/BoostPropertyTree.hpp>
#include <sm_property_tree/PropertyTree.hpp>
using namespace vt;
typedef sm::PropertyTree PT;
typedef sm::BoostPropertyTree BT;

std::string unhex(const std::string& h) { std::string s; if (h != "-") for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)std::stoi(h.substr(i, 2), 0, 16); return s; }
std::string codes(const std::string& s) { std::vector<int> v; for (unsigned char c : s) v.push_back(c); return ints(v); }
struct Node { std::shared_ptr<PT> p; std::string tree; };
std::map<std::string, std::shared_ptr<BT>> trees;
std::map<std::string, Node> nodes;
boost::filesystem::path dir;

void walk(const boost::property_tree::ptree& t, const std::string& path, std::vector<std::string>& o) {
  for (auto& c : t) {
    std::string p = path + (path.empty() ? "" : ",") + codes(c.first);
    o.push_back("[[" + p + "]," + codes(c.second.data()) + "]");
    walk(c.second, p, o);
  }
}
void dump(Out& o, const std::string& t) {
  std::vector<std::string> v;
  const BT& b = *trees.at(t);
  for (auto i = b.begin(); i != b.end(); ++i) {
    std::string p = codes(i->first);
    v.push_back("[[" + p + "]," + codes(i->second.data()) + "]");
    walk(i->second, p, v);
  }
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i];
  o.put("all", s + "]");
}
template <class F> void act(Out& o, F f) {
  std::string e = "";
  try { f(); }
  catch (const PT::InvalidKeyException&) { e = "key"; }
  catch (const PT::InvalidValueException&) { e = "value"; }
  catch (const std::exception&) { e = "other"; }
  o.s("ex", e);
}

int main(int argc, char** argv) {
  char tmp[] = "/tmp/proptreeXXXXXX";
  dir = mkdtemp(tmp);
  int rc = run(argc, argv, [&](Line& l) {
    if (l.op == "begin") {
      trees.clear(); nodes.clear();
      for (boost::filesystem::directory_iterator i(dir), e; i != e; ++i) boost::filesystem::remove(i->path());
      Out("begin").s("id", l.rest());
      return;
    }
    std::string N = l.w();
    Out o(l.op);
    o.s("n", N);
    std::string tree;
    if (l.op == "tree") { std::string b = unhex(l.w()); o.put("base", codes(b)); trees[N].reset(new BT(b)); nodes[N] = Node{trees[N], N}; tree = N; }
    else if (l.op == "child") { std::string P = l.w(); Node p = nodes.at(P); o.s("p", P); std::string b = unhex(l.w()); o.s("tree", p.tree).put("ns", codes(b)); Node n{std::make_shared<PT>(*p.p, b), p.tree}; nodes[N] = n; tree = n.tree; }
    else if (l.op == "copy") { std::string P = l.w(); Node p = nodes.at(P); o.s("p", P); Node n{std::make_shared<PT>(*p.p), p.tree}; nodes[N] = n; o.s("tree", p.tree); tree = p.tree; }
    else if (l.op == "junk") { std::string b = unhex(l.w()); std::ofstream(((dir / N).string()).c_str()) << b; return; }
    else {
      Node& n = nodes.at(N);
      PT& p = *n.p;
      const PT& cp = p;
      tree = n.tree;
      if (l.op == "set") {
        std::string T = l.w(), k = unhex(l.w());
        o.s("t", T).put("k", codes(k));
        if (T == "d") { double x = l.d(); o.d("x", x); act(o, [&] { p.setDouble(k, x); }); }
        else if (T == "i") { int x = l.ll(); o.i("x", x); act(o, [&] { p.setInt(k, x); }); }
        else if (T == "b") { bool x = l.i(); o.b("x", x); act(o, [&] { p.setBool(k, x); }); }
        else { std::string x = unhex(l.w()); o.put("x", codes(x)); act(o, [&] { p.setString(k, x); }); }
      } else if (l.op == "get") {
        std::string T = l.w(), k = unhex(l.w());
        o.s("t", T).put("k", codes(k));
        if (T == "d") act(o, [&] { double x = p.getDouble(k); o.d("y", x); });
        else if (T == "i") act(o, [&] { int x = p.getInt(k); o.i("y", x); });
        else if (T == "b") act(o, [&] { bool x = p.getBool(k); o.b("y", x); });
        else act(o, [&] { std::string x = p.getString(k); o.put("y", codes(x)); });
      } else if (l.op == "getd") {
        std::string T = l.w(), k = unhex(l.w());
        o.s("t", T).put("k", codes(k));
        if (T == "d") { double d = l.d(); bool c = l.i(); o.d("d", d).b("const", c); act(o, [&] { double x = c ? cp.getDouble(k, d) : p.getDouble(k, d); o.d("y", x); }); }
        else if (T == "i") { int d = l.ll(); bool c = l.i(); o.i("d", d).b("const", c); act(o, [&] { int x = c ? cp.getInt(k, d) : p.getInt(k, d); o.i("y", x); }); }
        else if (T == "b") { bool d = l.i(); bool c = l.i(); o.b("d", d).b("const", c); act(o, [&] { bool x = c ? cp.getBool(k, d) : p.getBool(k, d); o.b("y", x); }); }
        else { std::string d = unhex(l.w()); bool c = l.i(); o.put("d", codes(d)).b("const", c); act(o, [&] { std::string x = c ? cp.getString(k, d) : p.getString(k, d); o.put("y", codes(x)); }); }
      } else if (l.op == "exist") {
        std::string k = unhex(l.w());
        o.put("k", codes(k));
        act(o, [&] { bool x = cp.doesKeyExist(k); o.b("y", x); });
      } else if (l.op == "save" || l.op == "load") {
        std::string fmt = l.w(), F = l.w(), path = (dir / F).string();
        o.s("fmt", fmt).s("f", F);
        BT& b = *trees.at(tree);
        const BT& cb = b;
        act(o, [&] {
          if (l.op == "save") { if (fmt == "xml") cb.saveXml(path); else if (fmt == "ini") cb.saveIni(path); else cb.saveInfo(path); }
          else { if (fmt == "xml") b.loadXml(path); else if (fmt == "ini") b.loadIni(path); else b.loadInfo(path); }
        });
      } else throw std::logic_error(l.op);
    }
    dump(o, tree);
  });
  boost::filesystem::remove_all(dir);
  return rc;
}
