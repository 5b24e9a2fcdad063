// H01: handles and loans; U02: conversion of strings.
#include <cmath>
#include <cstring>
#include "hardware_interface/handle.hpp"
#include "hardware_interface/lexical_casts.hpp"
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
#include "mc.hpp"
namespace hi = hardware_interface;
namespace
{
mc::Check::Opt opt(mc::Check & k, const char * what, int split, bool caching = false)
{
  mc::Check::Opt o;
  o.split = split;
  o.caching = caching;
  o.cap_s = k.q(150, 1200);
  o.what = what;
  return o;
}
std::string num(double v) { return mc::fmt("%.17g", v); }
bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }

// ---- reference conversion of numbers
// decimal number: [sign] digits [. digits] [e [sign] digits]; nothing around it
bool number(const std::string & s)
{
  size_t i = 0;
  auto digits = [&] { size_t a = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i; return i - a; };
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  size_t n = digits();
  if (i < s.size() && s[i] == '.') { ++i; n += digits(); }
  if (!n) return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (!digits()) return false;
  }
  return i == s.size();
}
enum Res { GOOD, BAD, RANGE, ANY };   // ANY: not specified
Res integer(const std::string & s, __int128 lo, __int128 hi, __int128 & v)
{
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  if (i == s.size()) return BAD;
  __int128 x = 0;
  bool huge = false;
  for (; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') return BAD;
    x = x * 10 + (s[i] - '0');
    if (x > (__int128(1) << 100)) { huge = true; x = __int128(1) << 100; }
  }
  v = neg ? -x : x;
  return huge || v < lo || v > hi ? RANGE : GOOD;
}
template <class F> Res call(F f, std::string & other)
{
  try { f(); return GOOD; }
  catch (const std::invalid_argument &) { return BAD; }
  catch (const std::out_of_range &) { return RANGE; }
  catch (const std::exception & e) { other = e.what(); return ANY; }
}
template <class T> void check_int(mc::Ctx & c, const std::string & s, T (*f)(const std::string &), const char * name)
{
  __int128 v = 0;
  Res want = integer(s, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), v);
  T got = 0;
  std::string other;
  Res r = call([&] { got = f(s); }, other);
  if (!s.empty() && std::isspace(static_cast<unsigned char>(s[0])) && want == BAD) return;   // blanks in front are tolerated or not
  // a number which is too long may be called invalid where characters follow it
  if (want == BAD && r == RANGE) return;
  if (r != want) c.fail(std::string("integer:") + name, std::string(name) + "('" + s + "') " + (r == GOOD ? "= " + std::to_string(static_cast<int64_t>(got)) : r == BAD ? "invalid argument" : "out of range"));
  if (r == GOOD && static_cast<__int128>(got) != v) c.fail(std::string("integer:") + name, std::string(name) + "('" + s + "') = " + std::to_string(static_cast<int64_t>(got)));
}
void check_string(mc::Ctx & c, const std::string & s)
{
  c.step();
  const bool blank = !s.empty() && (std::isspace(static_cast<unsigned char>(s[0])));
  for (int f = 0; f < 2; ++f) {
    double got = 0;
    std::string other;
    Res r = call([&] { got = f ? static_cast<double>(hi::stof(s)) : hi::stod(s); }, other);
    Res want = BAD;
    double v = 0;
    if (number(s)) {
      // the C library conversion in the classic locale is the oracle for the value
      v = f ? static_cast<double>(std::strtof(s.c_str(), nullptr)) : std::strtod(s.c_str(), nullptr);
      want = std::isfinite(v) ? GOOD : BAD;
      if (want == GOOD && v == 0.0 && s.find_first_of("123456789") < s.find_first_of("eE")) want = ANY;   // underflow
      const double tiny = f ? std::numeric_limits<float>::min() : std::numeric_limits<double>::min();
      if (want == GOOD && v != 0 && std::abs(v) < tiny) want = ANY;
    }
    if (blank || want == ANY) continue;
    // out of range may be reported as either exception
    if (want == BAD ? r == GOOD || !other.empty() : r != GOOD) c.fail(f ? "float" : "double", std::string(f ? "stof('" : "stod('") + s + (r == GOOD ? "') was accepted as " + num(got) : "') was rejected"));
    if (want == GOOD && !same(v, got)) c.fail(f ? "float" : "double", std::string(f ? "stof('" : "stod('") + s + "') = " + num(got) + " instead of " + num(v));
  }
  check_int<int8_t>(c, s, hi::stoi8, "stoi8");
  check_int<int16_t>(c, s, hi::stoi16, "stoi16");
  check_int<int32_t>(c, s, hi::stoi32, "stoi32");
  check_int<uint8_t>(c, s, hi::stoui8, "stoui8");
  check_int<uint16_t>(c, s, hi::stoui16, "stoui16");
  check_int<uint32_t>(c, s, hi::stoui32, "stoui32");
}
void numbers(mc::Check & k)
{
  k.explore("short strings", [&](mc::Ctx & c) {
    static const std::string abc = "0159+-.e xE";
    std::string s;
    const int n = c.choose(k.q(6, 7));
    for (int i = 0; i < n; ++i) s += abc[c.choose(static_cast<int>(abc.size()))];
    check_string(c, s);
    c.outcome(number(s) ? s : "no number");
  }, opt(k, "every string of up to 5 (6) characters out of 0 1 5 9 + - . e E x and blank", 3));
  k.explore("limits", [&](mc::Ctx & c) {
    static const std::vector<std::string> base = {"0", "1", "127", "128", "129", "255", "256", "257", "32767", "32768", "32769", "65535", "65536", "65537", "2147483647", "2147483648", "2147483649",
      "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551488", "18446744073709486081", "340282346638528859811704183484516925440", "340282366920938463463374607431768211456",
      "1e38", "3.4e38", "3.5e38", "1e308", "1.7976931348623157e308", "1.8e308", "1e309", "1e400", "1e-300", "1e-400", "0.1", "123456.789", "inf", "nan", "infinity", "INF", "NaN", "0x10", "0b1", "1f", "1.0f", "1,5", "1 2", "1e", "."};
    static const std::vector<std::string> pre = {"", "+", "-", "--", "+-", "00"}, post = {"", "0", " ", "a", ".", ".0", "e0", "\n", "\t"};
    const std::string s = c.pick(pre) + c.pick(base) + c.pick(post);
    check_string(c, s);
    c.outcome(s);
  }, opt(k, "every bound of the number types with every prefix and suffix", 2));
  k.explore("bool", [&](mc::Ctx & c) {
    static const std::vector<std::string> base = {"true", "false", "1", "0", "yes", "t", "", "on", "truefalse"};
    std::string s = c.pick(base);
    for (auto & x : s) if (std::isalpha(static_cast<unsigned char>(x)) && c.choose(2)) x = static_cast<char>(std::toupper(x));
    static const std::vector<std::string> around = {"", " ", "e", "x"};
    s = c.pick(around) + s;
    s += c.pick(around);
    std::string low;
    for (char x : s) low += static_cast<char>(std::tolower(x));
    if (hi::to_lower_case(s) != low) c.fail("lower", s);
    std::string other;
    bool v = false;
    Res r = call([&] { v = hi::parse_bool(s); }, other);
    const bool good = low == "true" || low == "false";
    if (good != (r == GOOD) || (!good && r != BAD) || (good && v != (low == "true"))) c.fail("bool", "parse_bool('" + s + "')");
    c.outcome(low);
  }, opt(k, "every spelling of true, false and other words", 3));
}
template <class T> void arr(mc::Ctx & c, const std::string & s, bool good, const std::vector<std::string> & parts, const char * type)
{
  std::vector<T> got;
  std::string other;
  Res r = call([&] { got = hi::parse_array<T>(s); }, other);
  std::vector<T> want;
  if (good)
    for (auto & p : parts) {
      if constexpr (std::is_same_v<T, std::string>) want.push_back(p);
      else if constexpr (std::is_same_v<T, bool>) { if (p != "true" && p != "False") good = false; else want.push_back(p == "true"); }
      else {
        if (!number(p)) { good = false; break; }
        const double v = std::strtod(p.c_str(), nullptr);
        if (!std::isfinite(v)) { good = false; break; }
        if constexpr (std::is_integral_v<T>) {
          // too large: must not be accepted as something else
          if (v < static_cast<double>(std::numeric_limits<T>::min()) || v > static_cast<double>(std::numeric_limits<T>::max())) { good = false; break; }
          if (v != std::trunc(v)) return;   // not specified
        }
        want.push_back(static_cast<T>(v));
      }
    }
  if (!other.empty() || r == RANGE) c.fail("array", std::string("parse_array<") + type + ">('" + s + "') threw " + other);
  if (good != (r == GOOD)) c.fail("array", std::string("parse_array<") + type + ">('" + s + "') was " + (r == GOOD ? "accepted" : "rejected"));
  if (good && got != want) c.fail("array", std::string("parse_array<") + type + ">('" + s + "') has other elements");
}
void arrays(mc::Check & k)
{
  auto all = [](mc::Ctx & c, const std::string & s) {
    c.step();
    // reference: [ list ] where list is empty or words without blanks, commas, brackets, separated by one comma and blanks
    bool good = s.size() >= 2 && s.front() == '[' && s.back() == ']';
    std::vector<std::string> parts;
    if (good) {
      const std::string in = s.substr(1, s.size() - 2);
      if (in.find_first_of("[]") != std::string::npos) good = false;
      std::vector<std::string> raw(1);
      for (char x : in) if (x == ',') raw.emplace_back(); else raw.back() += x;
      bool empty = raw.size() == 1 && in.find_first_not_of(" \t\n") == std::string::npos;
      if (good && !empty)
        for (auto & w : raw) {
          size_t a = w.find_first_not_of(" \t\n"), b = w.find_last_not_of(" \t\n");
          if (a == std::string::npos) { good = false; break; }
          w = w.substr(a, b - a + 1);
          if (w.find_first_of(" \t\n") != std::string::npos) { good = false; break; }
          parts.push_back(w);
        }
    }
    arr<std::string>(c, s, good, parts, "string");
    arr<double>(c, s, good, parts, "double");
    arr<int>(c, s, good, parts, "int");
    arr<uint8_t>(c, s, good, parts, "uint8");
    arr<bool>(c, s, good, parts, "bool");
    if (good) {
      auto x = hi::parse_string_array(s);
      if (x != parts) c.fail("array", "parse_string_array('" + s + "')");
    }
    c.outcome(good ? s : "rejected");
  };
  k.explore("arrays of characters", [&](mc::Ctx & c) {
    static const std::string abc = "[], 1a";
    std::string s;
    const int n = c.choose(k.q(7, 8));
    for (int i = 0; i < n; ++i) s += abc[c.choose(static_cast<int>(abc.size()))];
    all(c, s);
  }, opt(k, "every string of up to 6 (7) characters out of [ ] , blank 1 a", 3));
  k.explore("arrays of tokens", [&](mc::Ctx & c) {
    static const std::vector<std::string> tok = {"", " ", "1", "-2.5", "300", "-1", "5e9", "1e999", "a", "true", "False", ",", ", ", "b c", "]", "["};
    std::string s = "[";
    const int n = c.choose(k.q(6, 7));
    for (int i = 0; i < n; ++i) s += c.pick(tok);
    s += "]";
    all(c, s);
  }, opt(k, "every list of up to 5 (6) tokens in brackets", 3));
  k.explore("long arrays", [&](mc::Ctx & c) {
    static const std::vector<int> len = {1, 10, 30, 100, 1000};
    static const std::vector<std::string> sep = {",", ", ", " , ", ",,"}, end = {"]", "", "]]", " ]", "[", ",]"}, el = {"1", "0.25", "name_1"};
    const int n = c.pick(len);
    const auto & e = c.pick(el);
    const auto & sp = c.pick(sep);
    std::string s = "[";
    for (int i = 0; i < n; ++i) s += (i ? sp : "") + e;
    s += c.pick(end);
    c.note(mc::fmt("%d elements '%s' separated by '%s' ", n, e.c_str(), sp.c_str()) + s.substr(s.size() > 8 ? s.size() - 8 : 0));
    all(c, s);
  }, opt(k, "lists of 1 to 1000 elements with every separator and ending", 2));
}

// ---- H01
struct Type { const char * name; int index; };   // index in the variant
static const std::vector<Type> types = {{"double", 1}, {"float32", 2}, {"bool", 3}, {"uint8", 4}, {"int8", 5}, {"uint16", 6}, {"int16", 7}, {"uint32", 8}, {"int32", 9}};
template <int I> struct Of;
template <> struct Of<1> { using T = double; }; template <> struct Of<2> { using T = float; }; template <> struct Of<3> { using T = bool; };
template <> struct Of<4> { using T = uint8_t; }; template <> struct Of<5> { using T = int8_t; }; template <> struct Of<6> { using T = uint16_t; };
template <> struct Of<7> { using T = int16_t; }; template <> struct Of<8> { using T = uint32_t; }; template <> struct Of<9> { using T = int32_t; };
template <class F> void with(int i, F f)
{
  switch (i) {
    case 1: f(double{}); break; case 2: f(float{}); break; case 3: f(bool{}); break; case 4: f(uint8_t{}); break; case 5: f(int8_t{}); break;
    case 6: f(uint16_t{}); break; case 7: f(int16_t{}); break; case 8: f(uint32_t{}); break; case 9: f(int32_t{}); break;
  }
}
double limit(int i, bool low)
{
  double r = 0;
  with(i, [&](auto t) { using T = decltype(t); r = low ? static_cast<double>(std::numeric_limits<T>::lowest()) : static_cast<double>(std::numeric_limits<T>::max()); });
  return r;
}
// reads through every type; model value v (NaN allowed), type index i
template <class H> void read_all(mc::Ctx & c, H & h, int i, double v, const std::string & what, bool every = true)
{
  for (int j = 1; j <= 9; ++j)
    if (every || j == i)
    with(j, [&](auto t) {
      using T = decltype(t);
      const bool legal = j == i || (j == 1 && i == 3);   // a bool may be read as double
      for (int way = 0; way < 3; ++way) {
        std::optional<double> got;
        bool threw = false, refused = false;
        try {
          if (way == 0) { auto o = h.template get_optional<T>(); if (o) got = static_cast<double>(*o); else refused = true; }
          else { T x{}; if (h.get_value(x, way == 2)) got = static_cast<double>(x); else refused = true; }
        } catch (const std::exception &) { threw = true; }
        if (threw == legal) c.fail("type", what + ": reading as " + types[j - 1].name + " a value of type " + types[i - 1].name + (threw ? " was refused" : " was accepted"));
        if (!legal) continue;
        if (refused) c.fail("value", what + ": reading failed without contention");
        if (!same(*got, v)) c.fail("value", what + ": read " + num(*got) + " instead of " + num(v) + " as " + types[j - 1].name);
      }
    });
}
void values(mc::Check & k)
{
  k.explore("values", [&](mc::Ctx & c) {
    static const std::vector<std::string> init = {"", "0", "1", "-1", "1.5", "true", "False", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "1e40", "1e400", "abc", " ", "1 ", "nan", "inf"};
    const auto & ty = c.pick(types);
    const auto & in = c.pick(init);
    const int kind = c.choose(3);
    c.note(std::string(ty.name) + " '" + in + "'");
    c.step();
    // model
    double v = 0;
    bool good = true;
    if (in.empty()) v = ty.index <= 2 ? std::nan("") : ty.index == 3 ? 0.0 : limit(ty.index, false);
    else if (ty.index == 1 || ty.index == 2) { good = number(in); if (good) { v = ty.index == 1 ? std::strtod(in.c_str(), nullptr) : static_cast<double>(std::strtof(in.c_str(), nullptr)); good = std::isfinite(v); } }
    else if (ty.index == 3) { good = in == "true" || in == "False"; v = in == "true"; }
    else { __int128 x = 0; good = integer(in, static_cast<__int128>(limit(ty.index, true)), static_cast<__int128>(limit(ty.index, false)), x) == GOOD; v = static_cast<double>(x); }
    hi::InterfaceInfo info;
    info.name = "itf";
    info.data_type = ty.name;
    info.initial_value = in;
    hi::InterfaceDescription d("joint", info);
    std::unique_ptr<hi::Handle> h;
    std::unique_ptr<hi::StateInterface> s;
    std::unique_ptr<hi::CommandInterface> m;
    bool threw = false;
    hi::Handle * p = nullptr;
    try {
      if (kind == 0) { h = std::make_unique<hi::Handle>("joint", "itf", ty.name, in); p = h.get(); }
      if (kind == 1) { s = std::make_unique<hi::StateInterface>(d); p = s.get(); }
      if (kind == 2) { m = std::make_unique<hi::CommandInterface>(d); p = m.get(); }
    } catch (const std::exception &) { threw = true; }
    if (threw == good) c.fail("initial", std::string(threw ? "rejected" : "accepted") + " initial value '" + in + "' for " + ty.name);
    if (threw) { c.outcome("rejected"); return; }
    if (p->get_name() != "joint/itf" || p->get_prefix_name() != "joint" || p->get_interface_name() != "itf") c.fail("name", p->get_name());
    if (p->get_data_type().to_string() != ty.name || !p->is_valid()) c.fail("type", "the data type of the handle");
    read_all(c, *p, ty.index, v, "initial value");
    // write every type
    for (int j = 1; j <= 9; ++j)
      with(j, [&](auto t) {
        using T = decltype(t);
        for (T w : {static_cast<T>(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest()})
          for (int way = 0; way < 4; ++way) {
            bool bad = false, ok = false;
            if (way == 3 && !m) continue;
            try { ok = way == 0 ? p->set_value(w) : way == 1 ? p->set_value(w, false) : way == 2 ? p->set_value(w, true) : m->set_limited_value(w); } catch (const std::exception &) { bad = true; }
            if (bad != (j != ty.index)) c.fail("type", std::string("writing ") + types[j - 1].name + " to " + ty.name + (bad ? " was refused" : " was accepted"));
            if (!bad && !ok) c.fail("value", "writing failed without contention");
            if (!bad) v = static_cast<double>(w);
            read_all(c, *p, ty.index, v, "after writing");
          }
      });
    // contention: a writer blocks everybody, a reader blocks writers
    with(ty.index, [&](auto t) {
      using T = decltype(t);
      const T other = static_cast<T>(v == 0 ? 1 : 0);
      std::unique_ptr<hi::LoanedCommandInterface> lc;
      std::unique_ptr<hi::LoanedStateInterface> ls;
      if (kind == 1) ls = std::make_unique<hi::LoanedStateInterface>(std::make_shared<const hi::StateInterface>(*s));
      {
        std::unique_lock<std::shared_mutex> l(p->get_mutex());
        T x{};
        if (p->template get_optional<T>() || p->get_value(x, false)) c.fail("lock", "read while it is being written");
        if (p->set_value(other) || p->set_value(other, false)) c.fail("lock", "written while it is being written");
        std::shared_lock<std::shared_mutex> none;
        if (p->template get_optional<T>(none)) c.fail("lock", "read with a lock that is not held");
        std::unique_lock<std::shared_mutex> none2;
        if (p->set_value(none2, other)) c.fail("lock", "written with a lock that is not held");
        if (!p->set_value(l, other)) c.fail("lock", "not written with a lock that is held");
      }
      v = static_cast<double>(other);
      read_all(c, *p, ty.index, v, "after writing with a lock");
      {
        std::shared_lock<std::shared_mutex> l(p->get_mutex());
        const T x = static_cast<T>(v == 0 ? 1 : 0);
        if (p->set_value(x) || p->set_value(x, false)) c.fail("lock", "written while it is being read");
        auto o = p->template get_optional<T>();
        if (!o || !same(static_cast<double>(*o), v)) c.fail("lock", "readers exclude each other");
        o = p->template get_optional<T>(l);
        if (!o || !same(static_cast<double>(*o), v)) c.fail("lock", "not read with a lock that is held");
      }
      read_all(c, *p, ty.index, v, "after contention");
    });
    c.outcome(mc::fmt("%d %g", ty.index, v));
  }, opt(k, "every data type with 30 initial values, read and written as every type, with and without contention", 2));
}
// copies and moves beside a model; every slot is a handle; external values e[]
struct Slot { std::string name; int type = 0; int ext = -1; double v = 0; bool moved = false; };   // type 0: no value
void moves(mc::Check & k)
{
  const int depth = k.q(4, 5);
  k.explore("copy and move", [=](mc::Ctx & c) {
    static const std::vector<int> menu = {1, -1, 9, 3, 0};   // own double, external double, int32, bool, none
    double ext[3] = {10, 11, 12};
    std::unique_ptr<hi::Handle> h[3];
    Slot m[3];
    auto make = [&](int i, int kind) {
      const std::string n = mc::fmt("j%d", i);
      m[i] = {};
      m[i].name = n + "/itf";
      if (kind == -1) { h[i] = std::make_unique<hi::Handle>(n, "itf", &ext[i]); m[i].type = 1; m[i].ext = i; }
      else if (kind == 0) { h[i] = std::make_unique<hi::Handle>(n + "/itf"); m[i].name = "/" + n + "/itf"; }
      else { h[i] = std::make_unique<hi::Handle>(n, "itf", types[kind - 1].name, kind == 3 ? "true" : mc::fmt("%d", i + 1)); m[i].type = kind; m[i].v = kind == 3 ? 1 : i + 1; }
    };
    for (int i = 0; i < 2; ++i) make(i, c.pick(menu));
    auto verify = [&](const std::string & what) {
      for (int i = 0; i < 3; ++i) {
        if (!h[i] || m[i].moved) continue;
        if (h[i]->get_name() != m[i].name) c.fail("name", what + ": " + h[i]->get_name() + " instead of " + m[i].name);
        if (m[i].type == 0) {
          if (h[i]->is_valid() || *h[i]) c.fail("valid", what + ": a handle without value is valid");
          bool threw = false;
          try { (void)h[i]->get_optional(); } catch (const std::exception &) { threw = true; }
          if (!threw) c.fail("valid", what + ": a handle without value can be read");
          continue;
        }
        if (!h[i]->is_valid() || static_cast<bool>(*h[i]) != (m[i].type == 1)) c.fail("valid", what + ": validity of " + m[i].name);
        read_all(c, *h[i], m[i].type, m[i].ext >= 0 ? ext[m[i].ext] : m[i].v, what + mc::fmt(": slot %d", i), false);
      }
    };
    verify("initially");
    std::string last;   // the last two operations are part of the state: they show where storage could be shared
    for (int d = 0; d < depth; ++d) {
      c.step();
      const int op = c.choose(6), a = c.choose(3), b = op < 4 ? c.choose(3) : 0;
      std::string what;
      if (op < 4 && (!h[b] || (m[b].moved && !(op & 1)))) return;   // nothing there to copy; moving a moved one again is allowed
      if (op == 0 || op == 1) {   // construct a out of b
        if (a == b) return;
        what = mc::fmt("%s %d out of %d", op ? "move" : "copy", a, b);
        c.note(what);
        h[a] = op ? std::make_unique<hi::Handle>(std::move(*h[b])) : std::make_unique<hi::Handle>(*h[b]);
        m[a] = m[b];
        if (op) m[b].moved = true;
      } else if (op == 2 || op == 3) {
        if (!h[a]) return;
        what = mc::fmt("%s assignment %d = %d", op == 3 ? "move" : "copy", a, b);
        c.note(what);
        if (op == 3) { hi::Handle & src = *h[b]; *h[a] = std::move(src); } else { hi::Handle & src = *h[b]; *h[a] = src; }
        if (a != b) { m[a] = m[b]; if (op == 3) m[b].moved = true; }
      } else if (op == 4) {   // write
        if (!h[a] || m[a].moved || m[a].type == 0) return;
        what = mc::fmt("write %d", a);
        c.note(what);
        double v = m[a].type == 3 ? (m[a].v == 0) : 100 + d;
        with(m[a].type, [&](auto t) { using T = decltype(t); if (!h[a]->set_value(static_cast<T>(v))) c.fail("value", "writing failed"); });
        if (m[a].ext >= 0) ext[m[a].ext] = v; else m[a].v = v;
      } else {   // destroy
        if (!h[a]) return;
        what = mc::fmt("destroy %d", a);
        c.note(what);
        h[a].reset();
        m[a] = {};
      }
      verify(what);
      std::string st;
      for (int i = 0; i < 3; ++i) st += h[i] ? mc::fmt("%s %d %d %g %d;", m[i].name.c_str(), m[i].type, m[i].ext, m[i].v, m[i].moved) : "-;";
      c.outcome(st);
      last = (last.size() > 3 ? last.substr(3) : last) + mc::fmt("%d%d%d", op, a, b);
      if (last.size() > 6) last = last.substr(last.size() - 6);
      c.state(st + last + mc::fmt("%g %g %g", ext[0], ext[1], ext[2]), depth - d);
    }
  }, opt(k, "every sequence of 4 (5) copies, moves, assignments (also to itself), writes and destructions of three handles", 3, true));
}
void loans(mc::Check & k)
{
  const int depth = k.q(4, 5);
  k.explore("loans", [=](mc::Ctx & c) {
    int freed = 0;
    double limit_at = 50;
    int limiter_calls = 0;
    auto ci = std::make_shared<hi::CommandInterface>(hi::InterfaceDescription("j", hi::InterfaceInfo("position", "double")));
    const bool limited = c.choose(2);
    if (limited) ci->set_on_set_command_limiter([&](double v, bool & l) { ++limiter_calls; l = v > limit_at; return l ? limit_at : v; });
    const bool state = c.choose(2);
    auto si = std::make_shared<hi::StateInterface>(hi::InterfaceDescription("j", hi::InterfaceInfo("velocity", "double")));
    std::vector<std::unique_ptr<hi::LoanedCommandInterface>> lc;
    std::vector<std::unique_ptr<hi::LoanedStateInterface>> ls;
    if (state) ls.push_back(std::make_unique<hi::LoanedStateInterface>(std::shared_ptr<const hi::StateInterface>(si), [&] { ++freed; }));
    else lc.push_back(std::make_unique<hi::LoanedCommandInterface>(ci, [&] { ++freed; }));
    double v = std::nan("");
    bool is_limited = false, alive = true;
    int held = 0;   // 1 shared, 2 unique
    std::unique_lock<std::shared_mutex> u(state ? si->get_mutex() : ci->get_mutex(), std::defer_lock);
    std::shared_lock<std::shared_mutex> r(state ? si->get_mutex() : ci->get_mutex(), std::defer_lock);
    for (int d = 0; d < depth && alive; ++d) {
      c.step();
      const int op = c.choose(6);
      if (op == 0) {
        const double w = c.choose(2) ? 60 + d : 10 + d;
        const int tries = c.choose(3);
        c.note(mc::fmt("write %g with %d tries", w, tries));
        bool ok = state ? (held ? si->set_value(w) : si->set_value(w)) : lc[0]->set_value(w, tries);
        if (ok != !held) c.fail("loan", "result of writing");
        if (ok) { v = !state && limited && w > limit_at ? limit_at : w; if (!state) is_limited = limited && w > limit_at; }
        if (ok && !state && ci->is_limited() != is_limited) c.fail("limited", "the flag of limited commands");
      } else if (op == 1) {
        const int tries = c.choose(3);
        c.note(mc::fmt("read with %d tries", tries));
        auto o = state ? ls[0]->get_optional(tries) : lc[0]->get_optional(tries);
        if (o.has_value() != (held != 2)) c.fail("loan", "result of reading");
        if (o && !same(*o, v)) c.fail("loan", "read " + num(*o) + " instead of " + num(v));
      } else if (op == 2) {
        c.note("move");
        if (state) ls[0] = std::make_unique<hi::LoanedStateInterface>(std::move(*ls[0]));
        else lc[0] = std::make_unique<hi::LoanedCommandInterface>(std::move(*lc[0]));
        if (freed) c.fail("freed", "the loan ended by moving it");
      } else if (op == 3) {
        c.note("end");
        lc.clear();
        ls.clear();
        alive = false;
        if (freed != 1) c.fail("freed", mc::fmt("the end of the loan was reported %d times", freed));
      } else if (op == 4) {
        if (held) return;
        c.note("somebody reads");
        r.lock();
        held = 1;
      } else {
        c.note(held ? "nobody" : "somebody writes");
        if (held == 1) r.unlock(); else if (held == 2) u.unlock(); else u.lock();
        held = held ? 0 : 2;
      }
      if (alive) {
        const std::string n = state ? "j/velocity" : "j/position";
        if ((state ? ls[0]->get_name() : lc[0]->get_name()) != n || (state ? ls[0]->get_prefix_name() : lc[0]->get_prefix_name()) != "j" || (state ? ls[0]->get_interface_name() : lc[0]->get_interface_name()) != n.substr(2)) c.fail("name", "name of the loan");
        if (!(state ? ls[0]->is_castable_to_double() : lc[0]->is_castable_to_double())) c.fail("type", "type of the loan");
      }
      if (held == 0) { auto o = state ? si->get_optional() : ci->get_optional(); if (!o || !same(*o, v)) c.fail("loan", "value of the interface"); }
    }
    c.outcome(mc::fmt("%g %d %d", v, held, freed));
    lc.clear();
    ls.clear();
    if (freed != 1) c.fail("freed", mc::fmt("the end of the loan was reported %d times", freed));
  }, opt(k, "every sequence of 4 (5) reads, writes, moves, ends of a loan, with and without others holding the value", 3));
}
}  // namespace
int main(int argc, char ** argv)
{
  const std::string id = argc > 1 && argv[1][0] == 'U' ? argv[1] : "H01";
  mc::Check k(argc, argv, id);
  if (id == "H01") {
    k.rule = "an execution is one sequence of operations on handles; outcomes are distinct final values";
    values(k);
    moves(k);
    loans(k);
  } else {
    k.rule = "an execution is one string converted by every function; outcomes are distinct accepted strings";
    numbers(k);
    arrays(k);
  }
  return k.finish();
}
