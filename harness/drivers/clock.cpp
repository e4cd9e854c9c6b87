// Times, durations, nanosecond conversions and the timestamp corrector.
#include "vt.hpp"
#include <time.h>
#include <memory>
#include <aslam_time/Time.hpp>
#include <aslam_time/Duration.hpp>
#include <aslam_time/implementation/Time.hpp>
#include <aslam_time/implementation/Duration.hpp>
#include <sm_timing/NsecTimeUtilities.hpp>
#include <sm_timing/TimestampCorrector.hpp>
using namespace vt;
using namespace aslam;

template <class X> std::string sn(const X& x) { return "[" + big(x.sec) + "," + big(x.nsec) + "]"; }
// what f gives, or ["refused"]
template <class F> std::string get(F f) {
  try { return sn(f()); }
  catch (const std::exception&) { return "[\"refused\"]"; }
}
template <class X> std::string cmp(const X& a, const X& b) {
  return ints({a < b, a <= b, a == b, a != b, a >= b, a > b});
}
// the printed number times 1e9, or "bad"
template <class X> std::string shown(const X& x) {
  std::ostringstream o;
  o << x;
  std::string s = o.str();
  size_t p = s.find('.');
  bool ok = p != std::string::npos && p > 0 && s.size() == p + 10;
  for (size_t i = 0; i < s.size() && ok; ++i)
    ok = i == p || isdigit((unsigned char)s[i]) || (i == 0 && s[i] == '-' && p > 1);
  return ok ? str(s.substr(0, p) + s.substr(p + 1)) : str("bad");
}
std::string usec(const boost::posix_time::time_duration& d) { return big(d.total_microseconds()); }

template <class T, class D> void times(const std::string& k, Line& l) {
  if (l.op == "mk") {
    uint32_t us = l.ull(), un = l.ull();
    int32_t s = l.ll(), n = l.ll();
    Out("mk").s("k", k).put("a", "[" + ubig(us) + "," + ubig(un) + "]").put("b", "[" + big(s) + "," + big(n) + "]")
      .put("t", get([&] { return T(us, un); })).put("d", get([&] { return D(s, n); }));
  } else if (l.op == "fns") {
    uint64_t u = l.ull();
    int64_t n = l.ll();
    Out("fns").s("k", k).put("a", ubig(u)).put("b", big(n))
      .put("t", get([&] { T t; t.fromNSec(u); return t; })).put("d", get([&] { D d; d.fromNSec(n); return d; }));
  } else if (l.op == "fsec") {
    double x = l.d();
    Out("fsec").s("k", k).put("x", num(x)).put("t", get([&] { return T(x); })).put("d", get([&] { return D(x); }))
      .put("t2", get([&] { T t; t.fromSec(x); return t; })).put("d2", get([&] { D d; d.fromSec(x); return d; }));
  } else if (l.op == "tt") {
    uint32_t s = l.ull(), n = l.ull(), s2 = l.ull(), n2 = l.ull();
    T a(s, n), b(s2, n2);
    Out("tt").s("k", k).put("a", sn(a)).put("b", sn(b)).put("cmp", cmp(a, b)).put("diff", get([&] { return a - b; }))
      .put("ns", ubig(a.toNSec())).d("sec", a.toSec()).put("back", get([&] { T t; t.fromNSec(a.toNSec()); return t; }))
      .put("shown", shown(a)).b("zero", a.isZero() && a.is_zero()).b("nonzero", !a.isZero() && !a.is_zero())
      .put("usec", usec(a.toBoost() - boost::posix_time::ptime(boost::gregorian::date(1970, 1, 1))))
      .put("secback", get([&] { return T(a.toSec()); }));
  } else if (l.op == "td") {
    uint32_t s = l.ull(), n = l.ull();
    int32_t s2 = l.ll(), n2 = l.ll();
    T a(s, n);
    D d(s2, n2);
    Out("td").s("k", k).put("a", sn(a)).put("b", sn(d)).put("add", get([&] { return a + d; })).put("sub", get([&] { return a - d; }))
      .put("iadd", get([&] { T x(a); return x += d; })).put("isub", get([&] { T x(a); return x -= d; }));
  } else if (l.op == "dd") {
    int32_t s = l.ll(), n = l.ll(), s2 = l.ll(), n2 = l.ll();
    double x = l.d();
    D a(s, n), b(s2, n2);
    Out("dd").s("k", k).put("a", sn(a)).put("b", sn(b)).put("x", num(x)).put("cmp", cmp(a, b))
      .put("add", get([&] { return a + b; })).put("sub", get([&] { return a - b; })).put("neg", get([&] { return -a; }))
      .put("iadd", get([&] { D y(a); return y += b; })).put("isub", get([&] { D y(a); return y -= b; }))
      .put("mul", get([&] { return a * x; })).put("imul", get([&] { D y(a); return y *= x; }))
      .put("ns", big(a.toNSec())).d("sec", a.toSec()).put("back", get([&] { D d; d.fromNSec(a.toNSec()); return d; }))
      .put("shown", shown(a)).b("zero", a.isZero()).put("usec", usec(a.toBoost()))
      .put("secback", get([&] { return D(a.toSec()); }));
  } else if (l.op == "now") {
    timespec p, q;
    clock_gettime(CLOCK_REALTIME, &p);
    T t = T::now();
    clock_gettime(CLOCK_REALTIME, &q);
    Out("now").s("k", k).put("lo", "[" + big(p.tv_sec) + "," + big(p.tv_nsec) + "]").put("t", sn(t)).put("hi", "[" + big(q.tv_sec) + "," + big(q.tv_nsec) + "]");
  } else if (l.op == "sleep") {
    int32_t s = l.ll(), n = l.ll();
    timespec p, q;
    clock_gettime(CLOCK_REALTIME, &p);
    bool ok = D(s, n).sleep();
    clock_gettime(CLOCK_REALTIME, &q);
    T end(q.tv_sec, q.tv_nsec);
    end += D(s, n);
    T::sleepUntil(end);
    bool reached = T::now() >= end;
    Out("sleep").s("k", k).put("d", "[" + big(s) + "," + big(n) + "]").b("ok", ok && reached)
      .put("lo", "[" + big(p.tv_sec) + "," + big(p.tv_nsec) + "]").put("hi", "[" + big(q.tv_sec) + "," + big(q.tv_nsec) + "]");
  } else throw std::logic_error(l.op);
}

template <class T> struct Ty;
template <> struct Ty<double> { static double in(Line& l) { return l.d(); } static std::string out(double x) { return num(x); } };
template <> struct Ty<boost::int64_t> { static boost::int64_t in(Line& l) { return l.ll(); } static std::string out(boost::int64_t x) { return big(x); } };

template <class T> struct Corr {
  typedef sm::timing::TimestampCorrector<T> C;
  C c;
  template <class F> std::string val(F f) {
    try { return f(); }
    catch (const typename C::TimeWentBackwardsException&) { return str("backwards"); }
    catch (const typename C::NotInitializedException&) { return str("uninitialised"); }
    catch (const std::exception&) { return str("refused"); }
  }
  void obs(const std::string& k, Line& l) {
    Out o("obs");
    T r = Ty<T>::in(l), y = Ty<T>::in(l);
    o.s("k", k).put("r", Ty<T>::out(r)).put("y", Ty<T>::out(y));
    o.put("ret", val([&] { return Ty<T>::out(c.correctTimestamp(r, y)); }));
    std::string q = "[", v = "[";
    while (l.more()) {
      T x = Ty<T>::in(l);
      if (q.size() > 1) q += ",", v += ",";
      q += Ty<T>::out(x);
      v += val([&] { return Ty<T>::out(c.getLocalTime(x)); });
    }
    o.put("q", q + "]").put("v", v + "]");
    o.put("slope", val([&] { return num(c.getSlope()); })).put("offset", val([&] { return num(c.getOffset()); })).i("n", c.convexHullSize());
  }
};

int main(int argc, char** argv) {
  std::unique_ptr<Corr<double>> cd;
  std::unique_ptr<Corr<boost::int64_t>> cl;
  return run(argc, argv, [&](Line& l) {
    if (l.op == "begin") { cd.reset(new Corr<double>); cl.reset(new Corr<boost::int64_t>); Out("begin").s("id", l.rest()); }
    else if (l.op == "obs") { std::string k = l.w(); if (k == "double") cd->obs(k, l); else cl->obs(k, l); }
    else if (l.op == "consts") Out("consts").put("v", "[" + sn(TIME_MIN) + "," + sn(TIME_MAX) + "," + sn(DURATION_MIN) + "," + sn(DURATION_MAX) + "," + sn(Time()) + "," + sn(WallTime()) + "," + sn(Duration()) + "," + sn(WallDuration()) + "]");
    else if (l.op == "nsec") {
      long long n = l.ll();
      double x = l.d();
      using namespace sm::timing;
      std::chrono::system_clock::time_point tp = nsecToChrono(n);
      Out("nsec").put("n", big(n)).put("x", num(x)).put("chrono", big(std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch()).count()))
        .put("back", big(chronoToNsec(tp))).put("sec", num(nsecToSec(n))).put("ns", big(secToNsec(x)));
    } else if (l.op == "nsecnow") {
      timespec p, q;
      clock_gettime(CLOCK_REALTIME, &p);
      long long n = sm::timing::nsecNow();
      clock_gettime(CLOCK_REALTIME, &q);
      Out("nsecnow").put("lo", "[" + big(p.tv_sec) + "," + big(p.tv_nsec) + "]").put("n", big(n)).put("hi", "[" + big(q.tv_sec) + "," + big(q.tv_nsec) + "]");
    } else {
      std::string k = l.w();
      if (k == "wall") times<WallTime, WallDuration>(k, l); else times<Time, Duration>(k, l);
    }
  });
}
