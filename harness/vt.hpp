// What every driver shares: reading scripts and writing observations.
//
// A script is a text of lines.  "begin ID" starts a run on fresh objects; every
// other line is an operation: a name and arguments separated by blanks.
// Numbers are decimal integers or C99 hexadecimal doubles.  A driver answers
// with one JSON object per line; doubles are written exactly, as "%a" strings.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>
#include <Eigen/Core>

namespace vt {

inline std::string num(double x) {
  if (std::isnan(x)) return "\"nan\"";
  if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
  char b[64];
  std::snprintf(b, sizeof b, "\"%a\"", x);
  return b;
}
inline std::string str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[16];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
// 64-bit integers are strings: TLC's integers have 32 bits.
inline std::string big(long long x) { return "\"" + std::to_string(x) + "\""; }
inline std::string ubig(unsigned long long x) { return "\"" + std::to_string(x) + "\""; }
template <class T> std::string list(const std::vector<T>& v, std::function<std::string(const T&)> f) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + f(v[i]);
  return o + "]";
}
inline std::string ints(const std::vector<int>& v) {
  return list<int>(v, [](const int& i) { return std::to_string(i); });
}
template <class D> std::string vec(const Eigen::MatrixBase<D>& v) {
  std::string o = "[";
  for (int i = 0; i < v.size(); ++i) o += (i ? "," : "") + num((double)v(i));
  return o + "]";
}
inline std::string vec(const std::vector<double>& v) {
  return list<double>(v, [](const double& d) { return num(d); });
}
template <class D> std::string mat(const Eigen::MatrixBase<D>& m) {
  std::string o = "[";
  for (int i = 0; i < m.rows(); ++i) {
    o += (i ? ",[" : "[");
    for (int j = 0; j < m.cols(); ++j) o += (j ? "," : "") + num((double)m(i, j));
    o += "]";
  }
  return o + "]";
}

// One observation: Out("op").put("key", vt::num(x)).  Written when destroyed.
class Out {
 public:
  explicit Out(const std::string& op) { s_ = "{\"op\":" + str(op); }
  Out(const Out&) = delete;
  ~Out() { std::fputs((s_ + "}\n").c_str(), stdout); std::fflush(stdout); }
  Out& put(const std::string& k, const std::string& json) { s_ += "," + str(k) + ":" + json; return *this; }
  Out& s(const std::string& k, const std::string& v) { return put(k, str(v)); }
  Out& i(const std::string& k, long v) { return put(k, std::to_string(v)); }
  Out& b(const std::string& k, bool v) { return put(k, v ? "true" : "false"); }
  Out& d(const std::string& k, double v) { return put(k, num(v)); }
  template <class M> Out& v(const std::string& k, const M& m) { return put(k, vec(m)); }
  template <class M> Out& m(const std::string& k, const M& x) { return put(k, mat(x)); }
 private:
  std::string s_;
};

// The words of one script line.
class Line {
 public:
  explicit Line(const std::string& l) : is_(l) { is_ >> op; }
  std::string op;
  std::string w() { std::string t; if (!(is_ >> t)) throw std::logic_error("script: missing word after " + op); return t; }
  long i() { return std::strtol(w().c_str(), 0, 0); }
  long long ll() { return std::strtoll(w().c_str(), 0, 10); }
  unsigned long long ull() { return std::strtoull(w().c_str(), 0, 10); }
  double d() { return std::strtod(w().c_str(), 0); }
  bool more() { is_ >> std::ws; return is_.good() && !is_.eof(); }
  Eigen::VectorXd v(int n) { Eigen::VectorXd x(n); for (int k = 0; k < n; ++k) x(k) = d(); return x; }
  // a vector preceded by its length
  Eigen::VectorXd v() { return v((int)i()); }
  Eigen::MatrixXd m(int r, int c) { Eigen::MatrixXd x(r, c); for (int a = 0; a < r; ++a) for (int b = 0; b < c; ++b) x(a, b) = d(); return x; }
  // a matrix preceded by its rows and columns
  Eigen::MatrixXd m() { int r = i(), c = i(); return m(r, c); }
  std::string rest() { std::string t; std::getline(is_ >> std::ws, t); return t; }
 private:
  std::istringstream is_;
};

// Runs the script on standard input or named by argv[1].
inline int run(int argc, char** argv, std::function<void(Line&)> op) {
  std::ifstream f;
  if (argc > 1) f.open(argv[1]);
  std::istream& in = argc > 1 ? (std::istream&)f : std::cin;
  std::string l;
  while (std::getline(in, l)) {
    if (l.empty() || l[0] == '#') continue;
    Line line(l);
    op(line);
  }
  std::fflush(stdout);
  // Skips the destructors of static objects: nothing observed depends on them.
  _exit(0);
}

}  // namespace vt
