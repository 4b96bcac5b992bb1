// Steps the library through scripts of API calls, one per line, and reports the
// observable result of each call as one JSON line.  The script is the projection of
// a behaviour of the specification (spec/Session.tla) on its actions; the report is
// what spec/TraceSession.tla validates.  Numbers travel as hexadecimal floats.
//
//   driver SCRIPT START        runs SCRIPT from line START (0-based) on
//
// Every report is flushed before the next call, so that a crash or a hang is
// attributed to the call it happened in.
#include "signal_tl/signal_tl.hpp"
#include "signal_tl/fmt.hpp"
#ifndef NO_PARSER
#include "signal_tl/parser.hpp"
#endif

#include <atomic>
#include <cfenv>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

using namespace signal_tl;
using signal::Sample;
using signal::Signal;
using signal::SignalPtr;
using signal::Trace;
namespace ast = signal_tl::ast;

namespace {

std::map<int, SignalPtr> sigs;
std::map<int, ast::Expr> exprs;
// Handles of signals whose slopes were not computed exactly.
std::set<int> rough;
#ifndef NO_PARSER
std::map<int, std::shared_ptr<Specification>> specs;
#endif

std::string num(double x) {
  if (std::isnan(x)) return "\"nan\"";
  if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
  char b[64];
  std::snprintf(b, sizeof b, "\"%a\"", x);
  return b;
}

std::string codes(const std::string& s) {
  std::string o = "[";
  for (size_t i = 0; i < s.size(); i++) {
    if (i) o += ",";
    o += std::to_string(static_cast<unsigned char>(s[i]));
  }
  return o + "]";
}

std::string show(const Sample& s) {
  return "[" + num(s.time) + "," + num(s.value) + "," + num(s.derivative) + "]";
}

std::string show(const Signal& x) {
  std::string o = "[";
  bool first    = true;
  for (const auto& s : x) {
    if (!first) o += ",";
    first = false;
    o += show(s);
  }
  return o + "]";
}

std::string show(const ast::Expr& e);

std::string show(const std::vector<ast::Expr>& es) {
  std::string o = "[";
  for (size_t i = 0; i < es.size(); i++) {
    if (i) o += ",";
    o += show(es[i]);
  }
  return o + "]";
}

std::string show(const ast::Interval& i) {
  const auto [a, b] = i.as_double();
  return "\"lo\":" + num(a) + ",\"hi\":" + num(b);
}

const char* opname(ast::ComparisonOp op) {
  switch (op) {
    case ast::ComparisonOp::GT: return ">";
    case ast::ComparisonOp::GE: return ">=";
    case ast::ComparisonOp::LT: return "<";
    case ast::ComparisonOp::LE: return "<=";
  }
  return "?";
}

std::string show(const ast::Expr& e) {
  if (auto p = std::get_if<ast::Const>(&e))
    return std::string("{\"k\":\"const\",\"b\":") + (p->value ? "true" : "false") + "}";
  if (auto p = std::get_if<ast::Predicate>(&e))
    return "{\"k\":\"pred\",\"n\":" + codes(p->name) + ",\"op\":\"" + opname(p->op) +
           "\",\"c\":" + num(p->rhs) + "}";
  if (auto p = std::get_if<ast::NotPtr>(&e))
    return "{\"k\":\"not\",\"a\":" + show((*p)->arg) + "}";
  if (auto p = std::get_if<ast::AndPtr>(&e))
    return "{\"k\":\"and\",\"as\":" + show((*p)->args) + "}";
  if (auto p = std::get_if<ast::OrPtr>(&e))
    return "{\"k\":\"or\",\"as\":" + show((*p)->args) + "}";
  if (auto p = std::get_if<ast::AlwaysPtr>(&e))
    return "{\"k\":\"G\",\"a\":" + show((*p)->arg) + "," + show((*p)->interval) + "}";
  if (auto p = std::get_if<ast::EventuallyPtr>(&e))
    return "{\"k\":\"F\",\"a\":" + show((*p)->arg) + "," + show((*p)->interval) + "}";
  if (auto p = std::get_if<ast::UntilPtr>(&e))
    return "{\"k\":\"U\",\"a\":" + show((*p)->args.first) +
           ",\"b\":" + show((*p)->args.second) + "," + show((*p)->interval) + "}";
  return "{\"k\":\"?\"}";
}

std::string show(const std::map<std::string, ast::Expr>& m) {
  std::string o = "[";
  bool first    = true;
  for (const auto& [k, e] : m) {
    if (!first) o += ",";
    first = false;
    o += "{\"n\":" + codes(k) + ",\"e\":" + show(e) + "}";
  }
  return o + "]";
}

#ifndef NO_PARSER
std::string show(const Specification& s) {
  return "{\"f\":" + show(s.formulas) + ",\"a\":" + show(s.assertions) + "}";
}
#endif

// One script line.
struct Args {
  std::istringstream in;
  explicit Args(const std::string& line) : in(line) {}
  std::string word() {
    std::string s;
    if (!(in >> s)) {
      std::cerr << "driver: bad script line: " << in.str() << "\n";
      std::_Exit(77);
    }
    return s;
  }
  long i() { return std::stol(word()); }
  unsigned long long u() { return std::stoull(word()); }
  double d() { return std::strtod(word().c_str(), nullptr); }
  std::string text() { // hexadecimal, "-" for the empty text
    const auto s = word();
    std::string o;
    if (s == "-") return o;
    for (size_t k = 0; k + 1 < s.size(); k += 2)
      o += static_cast<char>(std::stoi(s.substr(k, 2), nullptr, 16));
    return o;
  }
};

// Were the slopes of the operands of this thread's current call exact?
thread_local bool smooth = true;

const SignalPtr& S(Args& a) {
  const int h = static_cast<int>(a.i());
  if (rough.count(h)) smooth = false;
  return sigs.at(h);
}
const ast::Expr& E(Args& a) { return exprs.at(static_cast<int>(a.i())); }

// Was every floating point operation since clear() exact?
struct Exact {
  static void clear() { std::feclearexcept(FE_ALL_EXCEPT); }
  static bool get() {
    return smooth && !std::fetestexcept(FE_INEXACT | FE_OVERFLOW | FE_UNDERFLOW);
  }
};

std::string ok(bool exact, const std::string& fields) {
  return std::string("{\"out\":\"ok\",\"ex\":") + (exact ? "true" : "false") +
         (fields.empty() ? "" : ",") + fields + "}";
}

std::string put(long h, SignalPtr s, bool exact) {
  const auto r = "\"s\":" + show(*s);
  if (h >= 0) {
    sigs[static_cast<int>(h)] = std::move(s);
    if (exact) rough.erase(static_cast<int>(h));
    else rough.insert(static_cast<int>(h));
  }
  return ok(exact, r);
}

std::string put(long h, ast::Expr e) {
  const auto r = "\"e\":" + show(e);
  if (h >= 0) exprs.insert_or_assign(static_cast<int>(h), std::move(e));
  return ok(true, r);
}

std::vector<Sample> samples(Args& a) {
  const long n = a.i();
  std::vector<Sample> v;
  for (long k = 0; k < n; k++) {
    const double t = a.d(), x = a.d(), d = a.d();
    v.push_back(Sample{t, x, d});
  }
  return v;
}

// Executes one call.  Handles that are -1 are not stored, and then calls that only
// read may run concurrently.
std::string call(const std::string& line) {
  Args a(line);
  const std::string op = a.word();
  Exact::clear();
  smooth = true;

  // ---- signals
  if (op == "new") {
    const long h = a.i();
    return put(h, std::make_shared<Signal>(), true);
  }
  if (op == "points") {
    const long h = a.i(), n = a.i();
    std::vector<double> v, t;
    for (long k = 0; k < n; k++) v.push_back(a.d());
    const long m = a.i();
    for (long k = 0; k < m; k++) t.push_back(a.d());
    Exact::clear();
    auto r       = std::make_shared<Signal>(v, t);
    const bool e = Exact::get();
    return put(h, r, e);
  }
  if (op == "samples") {
    const long h = a.i();
    const auto v = samples(a);
    Exact::clear();
    auto r       = std::make_shared<Signal>(v);
    const bool e = Exact::get();
    return put(h, r, e);
  }
  if (op == "list") {
    const long h = a.i();
    const auto v = samples(a);
    const std::list<Sample> l(v.begin(), v.end());
    Exact::clear();
    auto r       = std::make_shared<Signal>(l);
    const bool e = Exact::get();
    return put(h, r, e);
  }
  if (op == "copy") {
    const long h = a.i();
    auto r       = std::make_shared<Signal>(*S(a));
    return put(h, r, Exact::get());
  }
  if (op == "assign") { // into an object that exists
    const int h = static_cast<int>(a.i());
    *sigs.at(h) = *S(a);
    if (smooth) rough.erase(h);
    else rough.insert(h);
    return ok(Exact::get(), "\"s\":" + show(*sigs.at(h)));
  }
  if (op == "push") {
    const int h    = static_cast<int>(a.i());
    auto& x        = *sigs.at(h);
    const double t = a.d(), v = a.d();
    Exact::clear();
    x.push_back(t, v);
    if (!Exact::get()) rough.insert(h);
    return ok(true, "");
  }
  if (op == "pushs") {
    const int h    = static_cast<int>(a.i());
    auto& x        = *sigs.at(h);
    const double t = a.d(), v = a.d(), d = a.d();
    Exact::clear();
    x.push_back(Sample{t, v, d});
    if (!Exact::get()) rough.insert(h);
    return ok(true, "");
  }
  if (op == "obs") {
    const auto& x = *S(a);
    std::string r = "\"s\":" + show(x) + ",\"n\":" + std::to_string(x.size()) +
                    ",\"empty\":" + (x.empty() ? "true" : "false") +
                    ",\"b\":" + num(x.begin_time()) + ",\"e\":" + num(x.end_time());
    r += ",\"rev\":[";
    bool first = true;
    for (auto i = x.rbegin(); i != x.rend(); i++) {
      if (!first) r += ",";
      first = false;
      r += show(*i);
    }
    r += "],\"idx\":[";
    for (size_t i = 0; i < x.size(); i++) {
      if (i) r += ",";
      r += show(x.at_idx(i));
    }
    r += "]";
    if (!x.empty()) r += ",\"front\":" + show(x.front()) + ",\"back\":" + show(x.back());
    return ok(true, r);
  }
  if (op == "at") {
    const auto& x  = *S(a);
    const double t = a.d();
    const auto s   = x.at(t);
    const bool e   = Exact::get();
    return ok(e, "\"p\":" + show(s));
  }
  if (op == "idx") {
    const auto& x = *S(a);
    const auto s  = x.at_idx(a.u());
    return ok(true, "\"p\":" + show(s));
  }
  if (op == "range") { // iterators of [begin_at(s), end_at(t)), as indices
    const auto& x  = *S(a);
    const double s = a.d(), t = a.d();
    const auto i   = x.begin_at(s);
    const auto j   = x.end_at(t);
    return ok(
        true,
        "\"i\":" + std::to_string(i - x.begin()) + ",\"j\":" +
            std::to_string(j - x.begin()));
  }
  if (op == "interp") {
    const auto& x  = *S(a);
    const double t = a.d();
    const auto i   = a.u();
    const double r = x.interpolate(t, i);
    const bool e   = Exact::get();
    return ok(e, "\"v\":" + num(r));
  }
  if (op == "area") {
    const auto& x  = *S(a);
    const double t = a.d();
    const auto i   = a.u();
    const double r = x.area(t, i);
    const bool e   = Exact::get();
    return ok(e, "\"v\":" + num(r));
  }
  if (op == "isect") { // of segment i of x with segment j of y
    const auto& x  = *S(a);
    const auto i   = a.u();
    const auto& y  = *S(a);
    const auto j   = a.u();
    const auto p   = y.at_idx(j);
    Exact::clear();
    const double r = x.time_intersect(p, i);
    const bool e   = Exact::get();
    return ok(e, "\"v\":" + num(r));
  }
  if (op == "order") { // samples compare by value
    const auto& x = *S(a);
    const auto i  = a.u();
    const auto& y = *S(a);
    const auto j  = a.u();
    const auto p = x.at_idx(i), q = y.at_idx(j);
    const auto b = [](bool v) { return v ? "true" : "false"; };
    return ok(
        true,
        std::string("\"lt\":") + b(p < q) + ",\"gt\":" + b(p > q) + ",\"le\":" + b(p <= q) +
            ",\"ge\":" + b(p >= q) + ",\"neg\":" + show(-p));
  }
  if (op == "simplify") {
    const long h = a.i();
    const auto& x = *S(a);
    Exact::clear();
    auto r       = x.simplify();
    const bool e = Exact::get();
    return put(h, r, e);
  }
  if (op == "resize") {
    const long h   = a.i();
    const auto& x  = *S(a);
    const double s = a.d(), t = a.d(), f = a.d();
    Exact::clear();
    auto r       = x.resize(s, t, f);
    const bool e = Exact::get();
    return put(h, r, e);
  }
  if (op == "shift") {
    const long h   = a.i();
    const auto& x  = *S(a);
    const double d = a.d();
    Exact::clear();
    auto r       = x.shift(d);
    const bool e = Exact::get();
    return put(h, r, e);
  }
  if (op == "rshift") {
    const long h   = a.i();
    const auto& x  = *S(a);
    const double s = a.d(), t = a.d(), f = a.d(), d = a.d();
    Exact::clear();
    auto r       = x.resize_shift(s, t, f, d);
    const bool e = Exact::get();
    return put(h, r, e);
  }
  if (op == "sync") {
    const long h = a.i(), g = a.i();
    const auto x = S(a);
    const auto y = S(a);
    Exact::clear();
    const auto [p, q] = signal::synchronize(x, y);
    const bool e      = Exact::get();
    const auto r      = "\"s\":" + show(*p) + ",\"s2\":" + show(*q);
    for (const auto& [k, o] : {std::make_pair(h, p), std::make_pair(g, q)}) {
      if (k < 0) continue;
      sigs[static_cast<int>(k)] = o;
      if (e) rough.erase(static_cast<int>(k));
      else rough.insert(static_cast<int>(k));
    }
    return ok(e, r);
  }

  if (op == "drop") { // lets go of an object
    const int h = static_cast<int>(a.i());
    sigs.erase(h);
    rough.erase(h);
    exprs.erase(h);
#ifndef NO_PARSER
    specs.erase(h);
#endif
    return ok(true, "");
  }

  // ---- formulas
  if (op == "const") {
    const long h = a.i();
    return put(h, Const(a.i() != 0));
  }
  if (op == "pred") { // pred h name op c: through the comparison operators
    const long h    = a.i();
    const auto name = a.text();
    const auto c    = a.word();
    const double v  = a.d();
    const auto p    = Predicate(name);
    if (c == ">") return put(h, p > v);
    if (c == ">=") return put(h, p >= v);
    if (c == "<") return put(h, p < v);
    return put(h, p <= v);
  }
  if (op == "predn") { // through the node's constructor
    const long h    = a.i();
    const auto name = a.text();
    const auto c    = a.word();
    const double v  = a.d();
    const auto o    = c == ">"    ? ast::ComparisonOp::GT
                      : c == ">=" ? ast::ComparisonOp::GE
                      : c == "<"  ? ast::ComparisonOp::LT
                                  : ast::ComparisonOp::LE;
    return put(h, ast::Predicate(name, o, v));
  }
  if (op == "predd") { // a signal name alone
    const long h = a.i();
    return put(h, Predicate(a.text()));
  }
  if (op == "inv") {
    const long h = a.i();
    return put(h, ~E(a));
  }
  if (op == "not") {
    const long h = a.i();
    return put(h, Not(E(a)));
  }
  if (op == "and2") {
    const long h  = a.i();
    const auto &x = E(a), &y = E(a);
    return put(h, x & y);
  }
  if (op == "or2") {
    const long h  = a.i();
    const auto &x = E(a), &y = E(a);
    return put(h, x | y);
  }
  if (op == "and" || op == "or") {
    const long h = a.i(), n = a.i();
    std::vector<ast::Expr> v;
    for (long k = 0; k < n; k++) v.push_back(E(a));
    return put(h, op == "and" ? And(v) : Or(v));
  }
  if (op == "implies") {
    const long h  = a.i();
    const auto &x = E(a), &y = E(a);
    return put(h, Implies(x, y));
  }
  if (op == "xor") {
    const long h  = a.i();
    const auto &x = E(a), &y = E(a);
    return put(h, Xor(x, y));
  }
  if (op == "iff") {
    const long h  = a.i();
    const auto &x = E(a), &y = E(a);
    return put(h, Iff(x, y));
  }
  if (op == "G" || op == "F") {
    const long h  = a.i();
    const auto& x = E(a);
    return put(h, op == "G" ? Always(x) : Eventually(x));
  }
  if (op == "Gd" || op == "Fd") {
    const long h   = a.i();
    const auto& x  = E(a);
    const double l = a.d(), u = a.d();
    const ast::Interval iv(l, u);
    return put(h, op == "Gd" ? Always(x, iv) : Eventually(x, iv));
  }
  if (op == "Gu" || op == "Fu") {
    const long h  = a.i();
    const auto& x = E(a);
    const auto l = a.u(), u = a.u();
    const ast::Interval iv(l, u);
    return put(h, op == "Gu" ? Always(x, iv) : Eventually(x, iv));
  }
  if (op == "U") {
    const long h  = a.i();
    const auto &x = E(a), &y = E(a);
    return put(h, Until(x, y));
  }
  if (op == "Ud") {
    const long h   = a.i();
    const auto &x = E(a), &y = E(a);
    const double l = a.d(), u = a.d();
    return put(h, Until(x, y, ast::Interval(l, u)));
  }
  if (op == "Uu") {
    const long h  = a.i();
    const auto &x = E(a), &y = E(a);
    const auto l = a.u(), u = a.u();
    return put(h, Until(x, y, ast::Interval(l, u)));
  }
  if (op == "ivald" || op == "ivalu") {
    const auto iv = [&] {
      if (op == "ivald") {
        const double l = a.d(), u = a.d();
        return ast::Interval(l, u);
      }
      const auto l = a.u(), u = a.u();
      return ast::Interval(l, u);
    }();
    return ok(
        true,
        show(iv) + ",\"all\":" + (iv.is_zero_to_inf() ? "true" : "false") +
            ",\"has\":" + (iv.has_value() ? "true" : "false"));
  }
  if (op == "ivaln") {
    const ast::Interval iv;
    return ok(
        true,
        show(iv) + ",\"all\":" + (iv.is_zero_to_inf() ? "true" : "false") +
            ",\"has\":" + (iv.has_value() ? "true" : "false"));
  }
  if (op == "dump") return ok(true, "\"e\":" + show(E(a)));
  if (op == "eq") { // atoms compare by what they say
    const auto& x = E(a);
    const auto& y = E(a);
    return ok(
        true,
        std::string("\"eq\":") + (x == y ? "true" : "false") + ",\"ne\":" + (x != y ? "true" : "false"));
  }
  if (op == "alias") { // a second handle on the same formula
    const long h = a.i();
    return put(h, E(a));
  }

  // ---- printing
  if (op == "print") return ok(true, "\"t\":" + codes(fmt::format("{}", E(a))));
  if (op == "printos") {
    std::ostringstream os;
    os.precision(3); // of no concern to formulas
    signal_tl::ast::Expr e = E(a);
    ::operator<<(os, e);
    return ok(true, "\"t\":" + codes(os.str()));
  }
  if (op == "prints") return ok(true, "\"t\":" + codes(fmt::format("{}", *S(a))));
  if (op == "printp") {
    const auto& x = *S(a);
    return ok(true, "\"t\":" + codes(fmt::format("{}", x.at_idx(a.u()))));
  }

  // ---- robustness
  if (op == "rob") {
    const long h   = a.i();
    const auto& e  = E(a);
    const long fl  = a.i(), n = a.i();
    Trace tr;
    for (long k = 0; k < n; k++) {
      const auto name = a.text();
      tr[name]        = S(a);
    }
    Exact::clear();
    auto r = fl == 2 ? semantics::compute_robustness(e, tr)
                     : semantics::compute_robustness(e, tr, fl != 0);
    const bool x = Exact::get();
    return put(h, r, x);
  }

#ifndef NO_PARSER
  // ---- specification texts
  // The text in memory of its own, or amid other text: a view ends where it says it does.
  auto from_view = [](const std::string& t) {
    const std::string before = t.size() % 3 == 2 ? "(assert zz true) " : "";
    const std::string after  = t.size() % 3 == 1 ? "0 (assert zz true)" : "";
    const std::string all    = before + t + after;
    std::vector<char> buf(all.begin(), all.end());
    return parser::from_string(std::string_view(buf.data() + before.size(), t.size()));
  };
  if (op == "parse") {
    const long h   = a.i();
    const auto t   = a.text();
    auto p         = std::shared_ptr<Specification>(from_view(t));
    const auto res = "\"sp\":" + show(*p);
    if (h >= 0) specs[static_cast<int>(h)] = p;
    return ok(true, res);
  }
  if (op == "parsef") {
    const long h = a.i();
    const auto t = a.text();
    // A file of its own, or this thread's one file with new contents.
    struct File {
      char path[64];
      int fd;
      explicit File(bool plain) :
          path("./specXXXXXX"), fd(plain ? ::mkstemp(path) : -1) {
        if (plain) return;
        std::strcpy(path, "a spec (%s) \xc3\xa9.stl.XXXXXX");
        fd = ::mkstemp(path);
      }
      ~File() {
        ::close(fd);
        ::unlink(path);
      }
      void put(const std::string& s) const {
        if (fd < 0 || ::ftruncate(fd, 0) != 0 || ::lseek(fd, 0, SEEK_SET) != 0 ||
            ::write(fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) {
          std::_Exit(77);
        }
      }
    };
    thread_local const File same(true);
    const auto own   = t.size() % 3 == 0 ? std::make_unique<File>(t.size() % 2 == 0) : nullptr;
    const File& file = own ? *own : same;
    file.put(t);
    auto p         = std::shared_ptr<Specification>(parser::from_file(file.path));
    const auto res = "\"sp\":" + show(*p);
    if (h >= 0) specs[static_cast<int>(h)] = p;
    return ok(true, res);
  }
  if (op == "parsem") { // a path that is no file
    const auto k    = a.word();
    const auto path = k == "directory" ? "/tmp" : "/tmp/no-such-directory/no-such-file.stl";
    auto p          = std::shared_ptr<Specification>(parser::from_file(path));
    return ok(true, "\"sp\":" + show(*p));
  }
  if (op == "mon") { // text in, robustness out
    const long h    = a.i();
    const auto w    = a.word();
    const auto t    = a.text();
    const auto name = a.text();
    const long fl   = a.i(), n = a.i();
    Trace tr;
    for (long k = 0; k < n; k++) {
      const auto m = a.text();
      tr[m]        = S(a);
    }
    std::unique_ptr<Specification> p = from_view(t);
    const auto e                     = w == "f" ? p->formulas.at(name) : p->assertions.at(name);
    if (t.size() % 2 == 0) p.reset(); // the formula outlives the specification
    Exact::clear();
    auto r = fl == 2 ? semantics::compute_robustness(e, tr)
                     : semantics::compute_robustness(e, tr, fl != 0);
    const bool x = Exact::get();
    return put(h, r, x);
  }
  if (op == "dumpsp") return ok(true, "\"sp\":" + show(*specs.at(static_cast<int>(a.i()))));
  if (op == "getf" || op == "geta") { // take a formula out of a specification
    const long h  = a.i();
    const auto& p = specs.at(static_cast<int>(a.i()));
    const auto n  = a.text();
    return put(h, op == "getf" ? p->formulas.at(n) : p->assertions.at(n));
  }
#endif

  std::cerr << "driver: unknown call: " << line << "\n";
  std::_Exit(77);
}

std::string quoted(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    const auto u = static_cast<unsigned char>(c);
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (u < 32 || u > 126) {
      o += '?';
    } else {
      o += c;
    }
  }
  return o + "\"";
}

std::string guarded(const std::string& line) {
  try {
    return call(line);
  } catch (const std::exception& e) {
    return std::string("{\"out\":\"error\",\"what\":") + quoted(e.what()) + "}";
  } catch (...) {
    return "{\"out\":\"error\",\"what\":\"(not a std::exception)\"}";
  }
}

} // namespace

int main(int argc, char** argv) {
  if (argc < 3) return 77;
  std::ifstream in(argv[1]);
  const long start = std::atol(argv[2]);
  std::string line;
  long n = 0;
  bool large = false; // does the session have a signal or text of tens of thousands of elements?
  while (std::getline(in, line)) {
    if (n++ < start) continue;
    large = large || line.size() > 200000;
    ::alarm(large ? 90 : 15);
    if (line.rfind("session", 0) == 0) {
      large = false;
      sigs.clear();
      rough.clear();
      exprs.clear();
#ifndef NO_PARSER
      specs.clear();
#endif
      std::cout << "{}\n" << std::flush;
      continue;
    }
    if (line.rfind("par ", 0) == 0) {
      ::alarm(120);
      // par THREADS REPS M: the next M calls (all read-only), concurrently.
      std::istringstream p(line.substr(4));
      long nt = 0, reps = 0, m = 0;
      p >> nt >> reps >> m;
      std::vector<std::string> calls;
      for (long k = 0; k < m; k++) {
        std::getline(in, line);
        calls.push_back(line);
        n++;
      }
      std::cout << "{}\n" << std::flush;
      std::vector<std::vector<std::set<std::string>>> res(
          static_cast<size_t>(nt), std::vector<std::set<std::string>>(calls.size()));
      std::vector<std::thread> ts;
      std::atomic<long> ready{0};
      for (long t = 0; t < nt; t++) {
        ts.emplace_back([&, t] {
          ready++;
          while (ready.load() < nt) {}
          for (long r = 0; r < reps; r++)
            for (size_t k = 0; k < calls.size(); k++) {
              const size_t q = (k + static_cast<size_t>(t)) % calls.size();
              res[static_cast<size_t>(t)][q].insert(guarded(calls[q]));
            }
        });
      }
      for (auto& t : ts) t.join();
      for (size_t q = 0; q < calls.size(); q++) {
        std::set<std::string> all;
        for (auto& r : res) all.insert(r[q].begin(), r[q].end());
        std::cout << "{\"alts\":[";
        bool first = true;
        for (const auto& s : all) {
          std::cout << (first ? "" : ",") << s;
          first = false;
        }
        std::cout << "]}\n";
      }
      std::cout << std::flush;
      continue;
    }
    std::cout << guarded(line) << "\n" << std::flush;
  }
  return 0;
}
