// C04, C05: URL parsing.
#include "common.hpp"
#include <asioext/url_view.hpp>
#include <asioext/error.hpp>
#include <memory>
#include <algorithm>

using vh::Rng;
using vh::cat;
using vh::show;

static const std::string ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
static const std::string DIGIT = "0123456789";
static const std::string ALNUM = ALPHA + DIGIT;
static const std::string HEX = "0123456789abcdefABCDEF";
static const std::string USERC = ALNUM + "-_.!~*'()%;:&=+$,";
static const std::string HOSTC = ALNUM + ".-_";
static const std::string ZONEC = ALNUM + ".-_~%";
// every printable character except space, '#' and '?'
static std::string urlc()
{
  std::string s;
  for (int c = 33; c < 127; ++c) if (c != '#' && c != '?') s += (char)c;
  return s;
}
static const std::string URLC = urlc();

static std::string from(Rng& r, const std::string& set, std::size_t n)
{ std::string s; while (n--) s += set[r.below(set.size())]; return s; }

// An exact-size heap copy, so that one byte of over-read is a report.
struct Exact
{
  std::unique_ptr<char[]> p; std::size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
  std::string_view view() const { return std::string_view(p.get(), n); }
};

struct Parts { std::string scheme, userinfo, host, port, path, query, fragment; };

static bool slice_of(std::string_view part, const Exact& e)
{
  if (part.empty()) return true;
  return part.data() >= e.p.get() && part.data() + part.size() <= e.p.get() + e.n;
}

static std::string brief(const asioext::url_view& u)
{
  return cat("scheme=", show(std::string(u.scheme())), " userinfo=", show(std::string(u.userinfo())), " host=", show(std::string(u.host())),
             " port=", show(std::string(u.port())), "/", u.port_value(), " path=", show(std::string(u.path())),
             " query=", show(std::string(u.query())), " fragment=", show(std::string(u.fragment())));
}

static void default_port(const std::string& scheme, std::string& text, unsigned& v)
{
  text.clear(); v = 0;
  if (scheme == "http") { text = "80"; v = 80; }
  else if (scheme == "https") { text = "443"; v = 443; }
  else if (scheme == "ftp") { text = "21"; v = 21; }
}

static void compare_all(const asioext::url_view& u, const Parts& p, const std::string& text, const char* pfx)
{
  auto eq = [&](std::string_view got, const std::string& want, const char* what) {
    if (got != want) vh::violation(cat(pfx, "-", what), cat(show(text), ": ", what, " is ", show(std::string(got)), " want ", show(want), "; ", brief(u)));
  };
  eq(u.scheme(), p.scheme, "scheme");
  eq(u.userinfo(), p.userinfo, "userinfo");
  eq(u.host(), p.host, "host");
  eq(u.path(), p.path, "path");
  eq(u.query(), p.query, "query");
  std::string_view f = u.fragment();
  std::string w = p.fragment;
  eq(f, w, "fragment");
  std::string dp; unsigned dv;
  default_port(p.scheme, dp, dv);
  if (!p.port.empty()) { dp = p.port; dv = (unsigned)std::strtoul(p.port.c_str(), 0, 10); }
  eq(u.port(), dp, "port");
  if (u.port_value() != dv) vh::violation(cat(pfx, "-port-value"), cat(show(text), ": ", u.port_value(), " want ", dv));
}

// ------------------------------------------------------------------ C04
// now and then much longer than usual, around the limits of narrow integers
static std::size_t len(Rng& r, std::size_t max)
{
  if (r.below(400) == 0) { vh::count("long-components"); return 250 + r.below(12); }
  if (r.below(8000) == 0) { vh::count("very-long-components"); return 65536 - r.below(20) + r.below(40); }
  return r.size(max);
}

static std::string gen_scheme(Rng& r)
{
  static const std::vector<std::string> known = {"http", "https", "ftp", "file", "ws", "wss", "mailto", "a", "git+ssh", "x-y.z1", "htt", "httpss", "ftps", "http1"};
  if (r.chance(60)) return r.pick(known);
  return from(r, ALPHA, 1) + from(r, ALNUM + "+-.", len(r, 12));
}

static std::string gen_host(Rng& r)
{
  if (r.chance(25)) {
    static const std::vector<std::string> v6 = {"::1", "::", "2001:db8::8a2e:370:7334", "fe80::1", "::ffff:192.168.0.1", "1:2:3:4:5:6:7:8", "FE80::ABCD", "abcd:ef01:2345:6789:abcd:ef01:2345:6789",
                                                "1111:2222:3333:4444:5555:6666:255.255.255.255", "0000:0000:0000:0000:0000:ffff:192.168.100.200", "::255.255.255.255", "64:ff9b::1.2.3.4", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8"};
    std::string h = "[" + r.pick(v6);
    if (r.chance(40)) h += "%25" + from(r, ALNUM, 1) + from(r, ALNUM + ".-_~", len(r, r.chance(5) ? 80 : 8)) + (r.chance(20) ? "%20" : "");
    return h + "]";
  }
  return from(r, r.chance(15) ? std::string("-._") : ALNUM, 1) + from(r, HOSTC, len(r, r.chance(3) ? 300 : 20));
}

static std::string gen_path_chars(Rng& r, std::size_t max)
{
  std::size_t n = len(r, max);
  if (r.chance(30)) return from(r, "/@:?#.[]%25" [0] ? std::string("/@:.[]%25;=&") : URLC, n);
  return from(r, URLC, n);
}

static std::string build(Rng& r, Parts& p, std::string& kind)
{
  std::string t;
  unsigned form = r.below(10);
  if (form < 7) { // scheme://authority
    kind = "authority";
    p.scheme = gen_scheme(r);
    t = p.scheme + "://";
    const bool has_host = !(form == 6 && r.chance(60));
    if (has_host) {
      p.host = gen_host(r);
      if (r.chance(35)) { p.userinfo = from(r, USERC, len(r, 12)); t += p.userinfo + "@"; kind += "+user"; }
      t += p.host;
      if (p.host[0] == '[') kind += "+v6";
      unsigned pk = r.below(10);
      if (pk < 5) {
        unsigned v = r.chance(30) ? (r.chance(50) ? 65535 - r.below(3) : r.below(11)) : r.below(65536);
        p.port = std::to_string(v);
        while (p.port.size() < 5 && r.chance(10)) p.port = "0" + p.port;
        t += ":" + p.port;
        kind += "+port";
      } else if (pk == 5) { t += ":"; kind += "+emptyport"; }
    } else kind += "+nohost";
    if (r.chance(70) || !has_host) { p.path = "/" + gen_path_chars(r, r.chance(3) ? 2000 : 30); kind += "+path"; }
  } else if (form == 7) { // scheme:/abs
    kind = "abs";
    p.scheme = gen_scheme(r);
    p.path = "/";
    std::string rest = gen_path_chars(r, 30);
    while (!rest.empty() && rest[0] == '/') rest.erase(0, 1);
    p.path += rest;
    t = p.scheme + ":";
  } else if (form == 8) { // scheme:opaque
    kind = "opaque";
    p.scheme = gen_scheme(r);
    p.path = gen_path_chars(r, 30);
    while (!p.path.empty() && p.path[0] == '/') p.path.erase(0, 1);
    t = p.scheme + ":";
  } else { // path only
    kind = "pathonly";
    p.path = r.chance(10) ? "*" : "/" + gen_path_chars(r, 30);
  }
  t += p.path;
  if (r.chance(40)) { kind += "+query"; p.query = gen_path_chars(r, 20); if (r.chance(20)) p.query.insert(r.below(p.query.size() + 1), "?"); t += "?" + p.query; }
  if (r.chance(40)) {
    kind += "+fragment";
    p.fragment = gen_path_chars(r, 20);
    if (r.chance(15) && !p.fragment.empty()) p.fragment.insert(1 + r.below(p.fragment.size()), r.chance(50) ? "?" : "#");
    if (r.chance(5)) p.fragment.insert(0, "?");
    t += "#" + p.fragment;
  }
  return t;
}

VH_GROUP(valid)
{
  vh::run_cases([](Rng& r, uint64_t) {
    Parts p; std::string kind;
    std::string t = build(r, p, kind);
    if (t.empty()) return;
    vh::current(show(t, 3000));
    Exact e(t);
    asioext::error_code ec = asioext::make_error_code(asioext::url_error::port_overflow);
    asioext::url_view u(e.view(), ec);
    VH_CHECK(!ec && u.is_valid() && static_cast<bool>(u), "valid-rejected", show(t), " kind ", kind, ": ", ec.message());
    if (!ec) {
      compare_all(u, p, t, "valid");
      VH_CHECK(slice_of(u.scheme(), e) && slice_of(u.userinfo(), e) && slice_of(u.host(), e) && slice_of(u.path(), e) &&
               slice_of(u.query(), e) && slice_of(u.fragment(), e), "not-a-slice", show(t));
      try {
        asioext::url_view v(e.view());
        compare_all(v, p, t, "valid-throwing");
        asioext::url_view w(v); // copies keep referring to the same text
        asioext::url_view x; VH_CHECK(!x.is_valid(), "default-valid", "");
        x = w;
        compare_all(x, p, t, "valid-copied");
      } catch (const vh::system_error& ex) { vh::violation("throwing-disagrees", cat(show(t), " ", ex.what())); }
    }
    VH_CHECK(std::memcmp(e.p.get(), t.data(), t.size()) == 0, "text-modified", show(t));
    vh::count("kind:" + kind.substr(0, kind.find('+')));
    if (kind.find("v6") != std::string::npos) vh::count("v6-hosts");
    if (!p.port.empty()) vh::count("explicit-ports");
    if (!ec && p.port.empty() && u.port_value()) vh::count("default-ports");
    vh::distinct(vh::hash_str(t));
    vh::sample(t);
  });
}

// ------------------------------------------------------------------ C05
static bool all_in(const std::string& s, const std::string& set)
{ return s.find_first_not_of(set) == std::string::npos; }

// Splits s the way RFC 3986 appendix B does; returns a reason when s must be rejected.
static std::string must_reject(const std::string& s, Parts& p)
{
  std::string bad;
  for (unsigned char c : s)
    if (c <= 8 || c == 10 || c == 11 || (c >= 13 && c <= 32) || c >= 127) bad = "control, space or non-ASCII byte";
  std::string rest = s;
  if (s[0] != '/' && s[0] != '*') {
    std::size_t colon = s.find(':');
    p.scheme = s.substr(0, colon);
    if (ALPHA.find(s[0]) == std::string::npos || !all_in(p.scheme, ALNUM + "+-.")) return "scheme";
    rest = colon == std::string::npos ? std::string() : s.substr(colon + 1);
    if (rest.compare(0, 2, "//") == 0) {
      std::size_t end = rest.find_first_of("/?#", 2);
      std::string auth = rest.substr(2, end == std::string::npos ? end : end - 2);
      rest = end == std::string::npos ? std::string() : rest.substr(end);
      std::string hp = auth;
      std::size_t at = auth.find('@');
      if (at != std::string::npos) {
        p.userinfo = auth.substr(0, at);
        hp = auth.substr(at + 1);
        if (!all_in(p.userinfo, USERC)) return "userinfo";
        if (hp.empty()) return "no host after userinfo";
      }
      std::string port;
      bool has_port = false;
      if (!hp.empty() && hp[0] == '[') {
        std::size_t close = hp.find(']');
        if (close == std::string::npos) return "unterminated IPv6 literal";
        p.host = hp.substr(0, close + 1);
        std::string in = hp.substr(1, close - 1);
        std::size_t z = in.find("%25");
        std::string addr = in.substr(0, z);
        if (!all_in(addr, HEX + ":.")) return "IPv6 characters";
        if (z != std::string::npos && !all_in(in.substr(z + 3), ZONEC)) return "zone id";
        std::string after = hp.substr(close + 1);
        if (!after.empty()) { if (after[0] != ':') return "junk after IPv6 literal"; has_port = true; port = after.substr(1); }
      } else {
        std::size_t colon2 = hp.find(':');
        p.host = hp.substr(0, colon2);
        if (!all_in(p.host, HOSTC)) return "host characters";
        if (colon2 != std::string::npos) { has_port = true; port = hp.substr(colon2 + 1); }
      }
      if (has_port) {
        if (!all_in(port, DIGIT)) return "port not numeric";
        if (!port.empty() && (port.size() > 19 || std::strtoull(port.c_str(), 0, 10) > 65535)) return "port range";
        p.port = port;
      }
    }
  }
  std::size_t h = rest.find('#');
  if (h != std::string::npos) { p.fragment = rest.substr(h + 1); rest.resize(h); }
  std::size_t q = rest.find('?');
  if (q != std::string::npos) { p.query = rest.substr(q + 1); rest.resize(q); }
  p.path = rest;
  return bad;
}

static std::string trim_hash(std::string s)
{ std::size_t i = s.find_first_not_of('#'); return i == std::string::npos ? std::string() : s.substr(i); }

static void judge(const std::string& t)
{
  vh::current(show(t, 3000));
  Exact e(t);
  asioext::error_code ec = asioext::make_error_code(asioext::url_error::missing_host);
  asioext::url_view u(e.view(), ec);
  bool threw = false;
  asioext::error_code tec;
  try { asioext::url_view v(e.view()); VH_CHECK(v.is_valid(), "throwing-invalid", show(t)); }
  catch (const vh::system_error& ex) { threw = true; tec = ex.code(); }
  if (ec) VH_CHECK(&ec.category() == &asioext::url_error_category() && ec.value() >= 1 && ec.value() <= 3 && !ec.message().empty() && ec.message() != asioext::error_code(99, ec.category()).message() && std::string(ec.category().name()).size(), "bad-error", show(t), " ", ec.value());
  VH_CHECK(threw == !!ec, "forms-disagree", show(t), " threw ", threw, " ec ", ec.message());
  VH_CHECK(!threw || tec == ec, "forms-disagree-code", show(t), " ", tec.message(), " vs ", ec.message());
  VH_CHECK(u.is_valid() == !ec && static_cast<bool>(u) == !ec, "valid-and-error", show(t), " ", ec.message());
  // whatever happened, accessors stay inside the text
  VH_CHECK(slice_of(u.scheme(), e) && slice_of(u.userinfo(), e) && slice_of(u.host(), e) && slice_of(u.path(), e) &&
           slice_of(u.query(), e) && slice_of(u.fragment(), e), "not-a-slice", show(t));
  Parts p;
  std::string why = must_reject(t, p);
  if (!why.empty()) {
    VH_CHECK(!!ec, "accepted-bad:" + why, show(t), ": ", why, "; ", brief(u));
    vh::count("must-reject:" + why);
  }
  if (!ec && why.empty()) {
    p.fragment = trim_hash(p.fragment);
    asioext::url_view& w = u;
    auto eq = [&](std::string_view got, const std::string& want, const char* what) {
      VH_CHECK(got == want, cat("accepted-", what), show(t), ": ", what, " ", show(std::string(got)), " want ", show(want), "; ", brief(w));
    };
    eq(u.scheme(), p.scheme, "scheme"); eq(u.userinfo(), p.userinfo, "userinfo"); eq(u.host(), p.host, "host");
    eq(u.path(), p.path, "path"); eq(u.query(), p.query, "query");
    VH_CHECK(trim_hash(std::string(u.fragment())) == p.fragment, "accepted-fragment", show(t), "; ", brief(u));
    std::string dp; unsigned dv;
    default_port(p.scheme, dp, dv);
    if (!p.port.empty()) { dp = p.port; dv = (unsigned)std::strtoul(p.port.c_str(), 0, 10); }
    eq(u.port(), dp, "port");
    VH_CHECK(u.port_value() == dv, "accepted-port-value", show(t), ": ", u.port_value(), " want ", dv);
    vh::count("accepted");
  } else if (ec) {
    VH_CHECK(u.scheme().empty() && u.userinfo().empty() && u.host().empty() && u.port().empty() && u.port_value() == 0 && u.path().empty() && u.query().empty() && u.fragment().empty(),
             "rejected-parts", show(t), "; ", brief(u));
    vh::count("rejected");
  }
  vh::distinct(vh::hash_str(t));
}

static void mutate(Rng& r, std::string& t)
{
  static const std::string special = "/?#@:[]%.*\\";
  for (unsigned k = 1 + r.below(3); k > 0; --k) {
    std::size_t pos = r.below(t.size() + 1);
    switch (r.below(9)) {
    case 0: if (!t.empty()) t.erase(r.below(t.size()), 1); break;
    case 1: t.insert(pos, 1, special[r.below(special.size())]); break;
    case 2: t.insert(pos, 1, (char)r.below(256)); break;
    case 3: if (!t.empty()) t[r.below(t.size())] = (char)r.below(256); break;
    case 4: if (!t.empty()) t[r.below(t.size())] = special[r.below(special.size())]; break;
    case 5: t.resize(r.below(t.size() + 1)); break;
    case 6: { static const std::vector<std::string> ins = {"%25", "[::1", "]:", "@", "//", ":65536", ":99999", ":4294967376", ":655360", "%2", "%", "\r\n", " ", "\t", ":-1", ":8a", "[", "::", "[]"};
      t.insert(pos, r.pick(ins)); break; }
    case 7: { std::size_t a = r.below(t.size() + 1), n = r.below(8); t.insert(pos, t.substr(a, n)); break; }
    case 8: if (!t.empty()) { std::size_t a = r.below(t.size()); t.erase(a, r.below(6)); } break;
    }
  }
}

VH_GROUP(hostile)
{
  vh::run_cases([](Rng& r, uint64_t) {
    std::string t;
    unsigned k = r.below(10);
    if (k == 0) t = r.bytes(1 + r.size(60));
    else if (k == 1) { static const std::string set = "ah:/?#@[]%25.10*- "; t = from(r, set, 1 + r.size(30)); }
    else if (k == 2) { // authority only, adversarial
      static const std::string set = "af0:.%25[]@zZ-_~9"; t = "http://" + from(r, set, r.size(14)); }
    else if (k == 3) { t = "http://h:" + from(r, DIGIT + (r.chance(20) ? "a+- " : ""), r.size(12)) + (r.chance(30) ? "/p" : ""); }
    else { Parts p; std::string kind; t = build(r, p, kind); mutate(r, t); }
    if (t.empty()) t = "x";
    judge(t);
    vh::sample(show(t));
  });
}

// every single byte inserted and substituted at every position of some base URLs, and every prefix
VH_GROUP(exhaustive)
{
  static const std::vector<std::string> bases = {
    "http://u:p@h.x:80/p?q#f", "https://[fe80::1%25eth0]:443/?a=b#c", "ftp://h", "file:///a", "a:/b", "a:b?c#d", "/p?q#f", "http://[::1]/", "http://h:65535", "http://@h:/"};
  vh::run_cases([](Rng& r, uint64_t i) {
    const std::string& b = bases[i % bases.size()];
    for (std::size_t n = 1; n <= b.size(); ++n) judge(b.substr(0, n));
    for (std::size_t pos = 0; pos <= b.size(); ++pos)
      for (int c = 0; c < 256; ++c) {
        std::string t = b;
        if (i / bases.size() % 2) { if (pos == b.size()) continue; t[pos] = (char)c; } else t.insert(pos, 1, (char)c);
        judge(t);
      }
    vh::sample("all one-byte edits of " + b);
    vh::count("exhaustive-bases");
  });
}

VH_MAIN
