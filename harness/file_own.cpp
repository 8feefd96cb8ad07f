// C10 descriptor ownership, C11 throwing against error-code forms, C12 whole-file helpers.
#include "handles.hpp"
#include <asioext/linear_buffer.hpp>
#include <asioext/read_file.hpp>
#include <asioext/standard_streams.hpp>
#include <asioext/write_file.hpp>
#include <algorithm>
#include <array>
#include <optional>

using vh::Rng;
using vh::cat;
namespace raw = sys::raw;

// ------------------------------------------------------------------ C10
namespace {
uint64_t inode(int fd) { struct stat st; return raw::fstat(fd, &st) == 0 ? st.st_ino : 0; }
}

VH_GROUP(owner)
{
  static asio::io_context* other = new asio::io_context; // a context without any file but those of the history
  { asioext::file tmp(*other); }
  warm_up();
  const std::string dir = vh::scratch();
  std::vector<std::string> paths;
  std::vector<uint64_t> inodes;
  for (int i = 0; i < 12; ++i) {
    paths.push_back(cat(dir, "/own", i));
    raw::put(paths.back(), cat("file ", i));
    struct stat st; raw::stat(paths.back().c_str(), &st); inodes.push_back(st.st_ino);
  }
  vh::run_cases([&](Rng& r, uint64_t) {
    raw::no_stdin closed0(r.chance(15));
    if (closed0.saved >= 0) vh::count("without-stdin");
    const std::set<int> base = raw::fds();
    const int NU = 4, NF = 3, NP = 3;
    // models: descriptor (-1: none) held by each object; plain handles are copies the harness must close
    asioext::unique_file_handle u[NU];
    std::optional<asioext::file> f[NF];
    asioext::file_handle p[NP];
    int mu[NU], mf[NF], mp[NP];
    std::fill(mu, mu + NU, -1); std::fill(mf, mf + NF, -1); std::fill(mp, mp + NP, -1);
    std::map<int, uint64_t> ino; // identity of every live descriptor
    std::vector<int> loose;      // live, owned by nobody but the harness
    std::string hist;
    const int from = sys::some_from(r);
    if (from) hist = cat("descriptors from ", from);
    sys::start();
    sys::w().from = from;
    auto fresh = [&](int& which) { which = (int)r.below(paths.size()); return raw::high(raw::open(paths[which].c_str(), O_RDWR | O_CLOEXEC), from); };
    const int steps = (int)r.range(6, 40);
    bool bad = false;
    for (int s = 0; s < steps && !bad; ++s) {
      sys::w().log.clear();
      sys::w().plan.clear();
      std::vector<int> must_close; // descriptors this step has to close
      const unsigned op = (unsigned)r.below(22);
      const int i = (int)r.below(NU), j = (int)r.below(NU), a = (int)r.below(NF), b = (int)r.below(NF), k = (int)r.below(NP);
      const bool thr = r.chance(40);
      const int cerr = r.chance(12) ? (r.chance(50) ? EINTR : EIO) : 0;
      if (cerr) sys::w().plan.push_back({sys::k_close, cerr, -1});
      EC ec = r.chance(50) ? EC(asio::error::already_open) : EC();
      bool threw = false;
      EC thrown;
      std::string d;
      auto put_loose = [&](int fd) { if (fd >= 0) loose.push_back(fd); };
      auto take = [&](int fd, int which) { ino[fd] = inodes[which]; };
      try {
        switch (op) {
        case 0: case 1: { // open into a unique handle
          const int w = (int)r.below(paths.size());
          d = cat("u", i, "=open(", w, ")"); hist += "; " + d; vh::current(hist);
          if (mu[i] >= 0) must_close.push_back(mu[i]);
          asioext::unique_file_handle n = asioext::open(paths[w].c_str(), OF::access_read_write | OF::open_existing, ec);
          const int fd = n.get().native_handle();
          VH_CHECK(!ec && n.is_open(), "open-failed", hist);
          take(fd, w); mu[i] = -1;
          try { u[i] = std::move(n); mu[i] = fd; }
          catch (const vh::system_error& e) {
            threw = true; thrown = e.code();
            if (n.is_open()) { d += "!kept"; sys::w().plan.clear(); n.close(ec); must_close.push_back(fd); } else mu[i] = fd;
          }
          VH_CHECK(threw || (!n.is_open() && n.get().native_handle() == -1), "moved-from-open", hist);
          break; }
        case 2: { // construct from a plain or native handle
          int w; const int fd = fresh(w); take(fd, w);
          d = cat("u", i, "=unique(", fd, ")"); hist += "; " + d; vh::current(hist);
          if (mu[i] >= 0) { sys::w().plan.clear(); must_close.push_back(mu[i]); }
          if (r.chance(50)) u[i] = asioext::unique_file_handle(asioext::file_handle(fd)); else u[i] = asioext::unique_file_handle(fd);
          mu[i] = fd;
          break; }
        case 3: case 4: { // move assignment, also onto itself
          d = cat("u", i, "=move(u", j, ")"); hist += "; " + d; vh::current(hist);
          if (i == j) { asioext::unique_file_handle& alias = u[j]; u[i] = std::move(alias); vh::count("self-moves"); break; }
          if (mu[i] >= 0) must_close.push_back(mu[i]);
          try { u[i] = std::move(u[j]); mu[i] = mu[j]; mu[j] = -1; }
          catch (const vh::system_error& e) {
            threw = true; thrown = e.code();
            if (u[j].is_open() || mu[j] < 0) mu[i] = -1; else { mu[i] = mu[j]; mu[j] = -1; }
          }
          break; }
        case 5: { // move construction and swap
          d = cat("swap(u", i, ",u", j, ")"); hist += "; " + d; vh::current(hist);
          if (i == j) break;
          std::swap(u[i], u[j]); std::swap(mu[i], mu[j]);
          asioext::unique_file_handle m(std::move(u[i]));
          VH_CHECK(!u[i].is_open() && m.get().native_handle() == mu[i], "move-construct", hist);
          u[i] = std::move(m);
          vh::count("swaps");
          break; }
        case 6: { // release
          d = cat("p", k, "=u", i, ".release()"); hist += "; " + d; vh::current(hist);
          put_loose(mp[k]);
          p[k] = u[i].release(); mp[k] = mu[i]; mu[i] = -1;
          VH_CHECK(p[k].native_handle() == mp[k], "release-wrong", hist);
          vh::count("releases");
          break; }
        case 7: case 8: { // reset from a released handle or a new one
          int fd = mp[k];
          if (fd < 0) { int w; fd = fresh(w); take(fd, w); }
          d = cat("u", i, ".reset(", fd, thr ? ")" : ",ec)"); hist += "; " + d; vh::current(hist);
          if (mu[i] >= 0) must_close.push_back(mu[i]);
          p[k].clear(); mp[k] = -1; mu[i] = fd;
          try { if (thr) u[i].reset(asioext::file_handle(fd)); else u[i].reset(asioext::file_handle(fd), ec); }
          catch (const vh::system_error& e) { threw = true; thrown = e.code(); }
          vh::count("resets");
          break; }
        case 9: case 10: { // close
          d = cat("u", i, ".close(", thr ? ")" : "ec)"); hist += "; " + d; vh::current(hist);
          if (mu[i] >= 0) must_close.push_back(mu[i]);
          mu[i] = -1;
          try { if (thr) u[i].close(); else u[i].close(ec); }
          catch (const vh::system_error& e) { threw = true; thrown = e.code(); }
          break; }
        case 11: { // duplicate
          const int derr = r.chance(15) ? EMFILE : 0;
          sys::w().plan.clear();
          if (derr) sys::w().plan.push_back({sys::k_dup, derr, -1});
          d = cat("u", i, "=dup(u", j, ")", derr ? "!" : ""); hist += "; " + d; vh::current(hist);
          asioext::unique_file_handle n = asioext::duplicate(u[j].get(), ec);
          sys::w().plan.clear();
          VH_CHECK(n.is_open() == (mu[j] >= 0 && !derr) && n.is_open() == !ec, "duplicate-result", hist, " ec=", text(ec));
          if (!n.is_open()) break;
          const int fd = n.get().native_handle();
          VH_CHECK(fd != mu[j] && !ino.count(fd), "duplicate-not-fresh", hist);
          VH_CHECK(inode(fd) == ino[mu[j]], "duplicate-other-file", hist);
          VH_CHECK(raw::getfd(fd) & FD_CLOEXEC, "duplicate-inheritable", hist);
          const off_t o = (off_t)r.below(100);
          raw::seek(fd, o);
          VH_CHECK(raw::tell(mu[j]) == o, "duplicate-not-shared", hist);
          ino[fd] = ino[mu[j]];
          if (mu[i] >= 0) must_close.push_back(mu[i]);
          u[i] = std::move(n); mu[i] = fd;
          vh::count("duplicates");
          break; }
        case 12: { // copies of plain handles own nothing
          d = cat("copies of u", i); hist += "; " + d; vh::current(hist);
          { asioext::file_handle c1 = u[i].get(), c2 = c1; asioext::file_handle c3(std::move(c2)); c1 = c3; asioext::file_handle* h = new asioext::file_handle(c3); delete h; }
          break; }
        case 13: case 14: { // file objects: open or construct
          const int w = (int)r.below(paths.size());
          const bool construct = !f[a] || r.chance(40);
          d = cat("f", a, construct ? "=file(" : ".open(", w, ")"); hist += "; " + d; vh::current(hist);
          if (construct) {
            if (mf[a] >= 0) must_close.push_back(mf[a]);
            f[a].reset(); mf[a] = -1;
            const bool alt = r.chance(40);
            if (alt) vh::count("other-context");
            asio::io_context& c = alt ? *other : ioc();
            if (r.chance(50)) { int w2; const int fd = fresh(w2); take(fd, w2); f[a].emplace(c, asioext::file_handle(fd)); mf[a] = fd; }
            else { f[a].emplace(c, paths[w].c_str(), OF::access_read | OF::open_existing, ec); mf[a] = f[a]->native_handle(); take(mf[a], w); VH_CHECK(!ec, "open-failed", hist); }
          } else {
            f[a]->open(paths[w].c_str(), OF::access_read | OF::open_existing, ec);
            if (mf[a] >= 0) VH_CHECK(ec == asio::error::already_open, "open-while-open", hist);
            else { VH_CHECK(!ec, "open-failed", hist); mf[a] = f[a]->native_handle(); take(mf[a], w); }
          }
          vh::count("file-opens");
          break; }
        case 15: case 16: { // file close
          if (!f[a]) continue;
          d = cat("f", a, ".close(", thr ? ")" : "ec)"); hist += "; " + d; vh::current(hist);
          if (mf[a] >= 0) must_close.push_back(mf[a]);
          mf[a] = -1;
          try { if (thr) f[a]->close(); else f[a]->close(ec); }
          catch (const vh::system_error& e) { threw = true; thrown = e.code(); }
          break; }
        case 17: { // file destruction
          if (!f[a]) continue;
          d = cat("~f", a); hist += "; " + d; vh::current(hist);
          if (mf[a] >= 0) must_close.push_back(mf[a]);
          mf[a] = -1; f[a].reset();
          break; }
        case 18: { // file move assignment
          if (!f[a] || !f[b]) continue;
          d = cat("f", a, "=move(f", b, ")"); hist += "; " + d; vh::current(hist);
          if (a == b) { asioext::file& alias = *f[b]; *f[a] = std::move(alias); vh::count("self-moves"); break; }
          if (mf[a] >= 0) must_close.push_back(mf[a]);
          *f[a] = std::move(*f[b]); mf[a] = mf[b]; mf[b] = -1;
          vh::count("file-move-assignments");
          break; }
        case 19: { // file move construction
          if (!f[a] || a == b) continue;
          d = cat("f", b, "=file(move(f", a, "))"); hist += "; " + d; vh::current(hist);
          if (mf[b] >= 0) must_close.push_back(mf[b]);
          f[b].reset(); mf[b] = mf[a]; mf[a] = -1;
          f[b].emplace(std::move(*f[a]));
          break; }
        case 20: { // unique handle destroyed while owning
          d = "scope"; hist += "; " + d; vh::current(hist);
          int w; const int fd = fresh(w); take(fd, w);
          { asioext::unique_file_handle t((asioext::file_handle(fd))); if (r.chance(30)) { asioext::unique_file_handle t2(std::move(t)); } }
          must_close.push_back(fd);
          break; }
        case 21: { // the harness closes what it was handed through a plain handle
          d = cat("p", k, ".close()"); hist += "; " + d; vh::current(hist);
          if (mp[k] >= 0) must_close.push_back(mp[k]);
          mp[k] = -1;
          try { if (thr) p[k].close(); else p[k].close(ec); }
          catch (const vh::system_error& e) { threw = true; thrown = e.code(); }
          break; }
        }
      } catch (const vh::system_error& e) { vh::violation("unexpected-exception", cat(hist, ": ", e.what())); bad = true; }
      sys::w().plan.clear();
      // an injected close failure that was thrown is the one that happened
      bool hit = false;
      for (auto& c : sys::w().log) if (c.k == sys::k_close && c.injected) hit = true;
      if (threw) VH_CHECK(hit && is_sys(thrown, cerr), "wrong-exception", hist, " ", text(thrown));
      if (hit) vh::count("close-failures");
      // exactly the descriptors that lost their owner were closed, once each
      std::vector<int> closed;
      for (auto& c : sys::w().log) if (c.k == sys::k_close) closed.push_back(c.fd);
      std::sort(closed.begin(), closed.end());
      std::sort(must_close.begin(), must_close.end());
      if (closed != must_close) {
        std::string x, y;
        for (int c : closed) x += cat(c, " ");
        for (int c : must_close) y += cat(c, " ");
        vh::violation(closed.size() < must_close.size() ? "not-closed" : "closed-too-much", cat(hist, ": closed {", x, "} want {", y, "}"));
        bad = true; // the ledger no longer matches reality
      }
      for (int c : must_close) {
        bool again = false; // the number may already be in use again
        for (int x = 0; x < NU; ++x) again = again || mu[x] == c;
        for (int x = 0; x < NF; ++x) again = again || mf[x] == c;
        for (int x = 0; x < NP; ++x) again = again || mp[x] == c;
        if (!again) ino.erase(c);
      }
      VH_CHECK(sys::w().trouble.empty(), "closed-twice", hist, " ", sys::w().trouble);
      if (!sys::w().trouble.empty()) bad = true;
      // every object agrees with the model and the descriptor table
      std::set<int> live = base;
      auto look = [&](const char* n, int x, int model, int native, bool open) {
        if (native != model || open != (model >= 0)) { vh::violation("owner-state", cat(hist, ": ", n, x, " holds ", native, open ? " (open)" : " (closed)", ", want ", model)); bad = true; }
        if (model >= 0) {
          if (inode(model) != ino[model]) { vh::violation("descriptor-replaced", cat(hist, ": ", n, x, " descriptor ", model)); bad = true; }
          if (!live.insert(model).second) { vh::violation("two-owners", cat(hist, ": ", n, x, " descriptor ", model)); bad = true; }
        }
      };
      for (int x = 0; x < NU; ++x) look("u", x, mu[x], u[x].get().native_handle(), u[x].is_open());
      for (int x = 0; x < NF; ++x) if (f[x]) look("f", x, mf[x], f[x]->native_handle(), f[x]->is_open());
      for (int x = 0; x < NP; ++x) look("p", x, mp[x], p[x].native_handle(), p[x].is_open());
      for (int x : loose) live.insert(x);
      const std::set<int> now = fds_settled(live);
      if (now != live) {
        std::string x;
        for (int c : now) if (!live.count(c)) x += cat(" leaked ", c);
        for (int c : live) if (!now.count(c)) x += cat(" lost ", c);
        vh::violation("descriptor-table", cat(hist, ":", x)); bad = true;
      }
    }
    sys::w().log.clear();
    for (int x = 0; x < NU; ++x) { sys::w().plan.clear(); u[x] = asioext::unique_file_handle(); }
    for (int x = 0; x < NF; ++x) f[x].reset();
    for (int x = 0; x < NP; ++x) if (mp[x] >= 0) { VH_CHECK(raw::getfd(mp[x]) != -1, "plain-handle-closed", hist); raw::close(mp[x]); }
    for (int x : loose) { VH_CHECK(raw::getfd(x) != -1, "plain-handle-closed", hist); raw::close(x); }
    sys::stop();
    if (!bad) VH_CHECK(fds_settled(base) == base, "descriptor-leak", hist);
    if (bad) for (int x : raw::fds()) if (!base.count(x)) raw::close(x);
    vh::distinct(vh::hash_str(hist));
    vh::count("ledger-steps", steps);
    static int shown = 0;
    if (shown++ < 2) vh::sample(hist);
  });
}

// ------------------------------------------------------------------ C11
namespace {
struct Out { EC ec; bool threw = false, foreign = false; std::string value; };

template <class F> std::string value_of(F&& f)
{
  if constexpr (std::is_void_v<decltype(f())>) { f(); return "void"; }
  else return cat(f());
}
std::string show(const asioext::file_times& t) { return cat(t.ctime.time_since_epoch().count(), "/", t.atime.time_since_epoch().count(), "/", t.mtime.time_since_epoch().count()); }

template <class F> void throwing(Out& o, F&& f)
{
  try { o.value = f(); }
  catch (const vh::system_error& e) { o.threw = true; o.ec = e.code(); }
  catch (...) { o.threw = o.foreign = true; }
}

const char* const cond_names[] = {"read-write", "read-only", "write-only", "closed", "bad-number", "directory", "pipe", "empty-read-write"};
int make_fd(int cond, const std::string& path, const std::string& dir, const std::string& data, int& peer)
{
  peer = -1;
  switch (cond) {
  case 3: return -1;
  case 4: return 900000;
  case 5: return raw::open(dir.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  case 6: { int p[2]; if (::pipe2(p, O_CLOEXEC | O_NONBLOCK) != 0) std::exit(3); peer = p[1]; (void)!raw::write(p[1], "pipe data", 9); return p[0]; }
  case 7: raw::put(path, ""); return raw::open(path.c_str(), O_RDWR | O_CLOEXEC);
  default: raw::put(path, data); return raw::open(path.c_str(), (cond == 0 ? O_RDWR : cond == 1 ? O_RDONLY : O_WRONLY) | O_CLOEXEC);
  }
}

template <class Q>
std::string apply(Q& q, unsigned op, Rng& r, EC* ec, std::string& name)
{
  typedef asioext::file_perms P;
  typedef asioext::file_perm_options O;
  const unsigned arg = (unsigned)r.below(4096);
  char buf[64];
  std::memset(buf, '.', sizeof buf);
  const std::size_t len = arg % 7 == 0 ? 0 : arg % 64;
  const int64_t soff = (int64_t)(arg % 200) - 100;
  const uint64_t off = arg % 11 == 0 ? ~0ull - arg : arg % 100;
  switch (op) {
  case 0: name = "position"; return cat(ec ? q.position(*ec) : q.position());
  case 1: name = cat("seek(", arg % 3, ",", soff, ")");
    { const auto w = arg % 3 == 0 ? asioext::seek_origin::from_begin : arg % 3 == 1 ? asioext::seek_origin::from_current : asioext::seek_origin::from_end;
      return cat(ec ? q.seek(w, soff, *ec) : q.seek(w, soff)); }
  case 2: name = "size"; return cat(ec ? q.size(*ec) : q.size());
  case 3: { name = cat("truncate(", off, ")"); if (ec) q.truncate(off, *ec); else q.truncate(off); return "void"; }
  case 4: name = "permissions()"; return cat(static_cast<int>(ec ? q.permissions(*ec) : q.permissions()));
  case 5: { name = cat("permissions(", arg % 512, ",", arg % 4, ")");
    const P p = static_cast<P>((arg % 512) | 0400);
    const O o = arg % 4 == 0 ? O::replace : arg % 4 == 1 ? O::add : O::remove;
    if (arg % 4 == 3) { if (ec) q.permissions(p, *ec); else q.permissions(p); }
    else if (ec) q.permissions(p, o, *ec); else q.permissions(p, o);
    return "void"; }
  case 6: name = "attributes()"; return cat(static_cast<int>(ec ? q.attributes(*ec) : q.attributes()));
  case 7: { name = "attributes(x)"; const auto at = static_cast<asioext::file_attrs>(arg % 16);
    const auto ao = arg & 16 ? asioext::file_attr_options::add : asioext::file_attr_options::remove;
    if (arg & 32) { if (ec) q.attributes(at, *ec); else q.attributes(at); }
    else if (ec) q.attributes(at, ao, *ec); else q.attributes(at, ao);
    return "void"; }
  case 8: name = "times()"; { auto t = ec ? q.times(*ec) : q.times(); return cat(t.atime.time_since_epoch().count() != 0, t.mtime.time_since_epoch().count() != 0, t.ctime.time_since_epoch().count()); }
  case 9: { name = "times(t)";
    asioext::file_times t{asioext::file_time_type(), asioext::file_time_type(asioext::file_time_type::duration(1000000007ll * arg)), asioext::file_time_type(asioext::file_time_type::duration(77 + arg))};
    if (arg % 5 == 0) t.atime = asioext::file_time_type(); // leave that one alone
    else if (arg % 5 == 1) t.mtime = asioext::file_time_type();
    if (ec) q.times(t, *ec); else q.times(t);
    return "void"; }
  case 10: { name = cat("read_some(", len, ")"); auto n = ec ? q.read_some(asio::buffer(buf, len), *ec) : q.read_some(asio::buffer(buf, len)); return cat(n, ":", std::string(buf, n)); }
  case 11: { name = cat("write_some(", len, ")"); auto n = ec ? q.write_some(asio::buffer(buf, len), *ec) : q.write_some(asio::buffer(buf, len)); return cat(n); }
  case 12: { name = cat("read_some_at(", off, ",", len, ")"); auto n = ec ? q.read_some_at(off, asio::buffer(buf, len), *ec) : q.read_some_at(off, asio::buffer(buf, len)); return cat(n, ":", std::string(buf, n)); }
  case 13: { name = cat("write_some_at(", off, ",", len, ")"); const uint64_t o = off > 1000 ? off : off; auto n = ec ? q.write_some_at(o, asio::buffer(buf, len), *ec) : q.write_some_at(o, asio::buffer(buf, len)); return cat(n); }
  default: { name = "close"; if (ec) q.close(*ec); else q.close(); return "void"; }
  }
}
const std::vector<int> fault_kinds = {sys::k_open, sys::k_close, sys::k_dup, sys::k_read, sys::k_write, sys::k_seek, sys::k_trunc, sys::k_stat, sys::k_chmod, sys::k_utime};
}

VH_GROUP(forms)
{
  warm_up();
  const std::string dir = vh::scratch() + "/d";
  ::mkdir(dir.c_str(), 0755);
  const std::string pt = vh::scratch() + "/thr", pe = vh::scratch() + "/err";
  vh::run_cases([&](Rng& r, uint64_t) {
    const std::string data = r.bytes(r.below(80));
    const int cond = (int)r.below(8);
    const int kind = (int)r.below(3);
    const unsigned op = (unsigned)r.below(28);
    const uint64_t argseed = r.next();
    static const std::vector<int> errs = {EIO, EPERM, ENOSPC, EINTR, EFBIG, EAGAIN, EINVAL, EMFILE};
    sys::fault flt{0, 0, -1};
    if (r.chance(20)) flt = sys::fault{r.pick(fault_kinds), r.pick(errs), -1};
    if (flt.err == EINTR && flt.k != sys::k_read && flt.k != sys::k_write) flt.err = EIO;
    const std::vector<EC> stale = {asio::error::already_open, asio::error::operation_aborted, EC(), asio::error::eof, vh::make_error_code(vh::errc::io_error)};
    const EC old = r.pick(stale);
    std::string name;
    Out t, e;
    struct stat st, se;
    std::string ct, ce, extra;
    bool mutable_state = true, expect_fail = false, known = false;
    for (int form = 0; form < 2; ++form) {
      const bool thr = form == 0;
      Out& o = thr ? t : e;
      const std::string& path = thr ? pt : pe;
      std::string& content = thr ? ct : ce;
      ::unlink(path.c_str());
      raw::put(path, data);
      Rng ar(argseed);
      o.ec = old;
      EC& ec = o.ec;
      auto plan = [&] { sys::w().plan.clear(); if (flt.err) sys::w().plan.push_back(flt); sys::start(); };
      if (op < 18) { // an operation of one handle in one condition
        int peer;
        const int fd = make_fd(cond, path, dir, data, peer);
        std::unique_ptr<Obj> ob = Obj::make(kind, fd);
        const unsigned which = op >= 15 ? 14 : op;
        if (cond == 0 && ar.chance(50)) raw::seek(fd, ar.below(90));
        vh::current(cat(kind_name(kind), " ", cond_names[cond], " operation ", which, thr ? " throwing" : " error_code"));
        plan();
        if (thr) throwing(o, [&] { return ob->with([&](auto& q) { return apply(q, which, ar, nullptr, name); }); });
        else try { o.value = ob->with([&](auto& q) { return apply(q, which, ar, &ec, name); }); } catch (...) { vh::violation("error-form-throws", cat(kind_name(kind), " ", name)); }
        sys::stop();
        name = cat(kind_name(kind), " ", cond_names[cond], " ", name);
        if (fd >= 0 && cond < 3) o.value += cat(" pos ", raw::getfd(fd) == -1 ? -1 : raw::tell(fd));
        if (which == 14) o.value += ob->with([&](auto& q) { return q.is_open(); }) ? " open" : " closed";
        known = cond == 4 || (cond == 3 && which != 14);
        // attributes do not exist on this platform and empty transfers need not touch the handle
        if (which == 6 || which == 7) known = false;
        expect_fail = known;
        if (peer >= 0) raw::close(peer);
      } else if (op < 22) { // whole-program functions
        vh::current(cat("function ", op, thr ? " throwing" : " error_code", " cond ", cond));
        int peer;
        const int fd = make_fd(cond, path, dir, data, peer);
        const std::string where = cond == 3 ? dir + "/missing" : cond == 4 ? std::string(300, 'x') : cond == 5 ? dir : path;
        const OF fl = cond == 1 ? OF::access_read | OF::create_new : cond == 2 ? OF::access_write | OF::truncate_existing : cond == 6 ? OF::truncate_existing | OF::create_new : OF::access_read_write | OF::open_existing;
        asioext::unique_file_handle res;
        plan();
        if (op == 18) {
          name = cat("duplicate ", cond_names[cond]);
          if (thr) throwing(o, [&] { res = asioext::duplicate(asioext::file_handle(fd)); return std::string(); });
          else res = asioext::duplicate(asioext::file_handle(fd), ec);
          known = expect_fail = cond == 3 || cond == 4;
        } else if (op == 19) {
          name = cat("open ", cond_names[cond], " flags ", (int)fl);
          if (thr) throwing(o, [&] { res = asioext::open(where.c_str(), fl); return std::string(); });
          else res = asioext::open(where.c_str(), fl, ec);
          known = expect_fail = cond == 1 || cond == 3 || cond == 4 || cond == 5 || cond == 6;
        } else if (op == 20) {
          name = cat("open(path) ", cond_names[cond], " flags ", (int)fl);
          if (thr) throwing(o, [&] { res = asioext::open(boost::filesystem::path(where), fl); return std::string(); });
          else res = asioext::open(boost::filesystem::path(where), fl, ec);
          known = expect_fail = cond == 1 || cond == 3 || cond == 4 || cond == 5 || cond == 6;
        } else {
          const unsigned w = (unsigned)ar.below(3);
          name = cat("standard stream ", w);
          asioext::file_handle h;
          if (thr) throwing(o, [&] { h = w == 0 ? asioext::get_stdin() : w == 1 ? asioext::get_stdout() : asioext::get_stderr(); return std::string(); });
          else h = w == 0 ? asioext::get_stdin(ec) : w == 1 ? asioext::get_stdout(ec) : asioext::get_stderr(ec);
          o.value = cat(h.native_handle());
          VH_CHECK(h.native_handle() == (int)w, "wrong-stream", name);
        }
        sys::stop();
        if (op != 21) o.value = cat(res.is_open(), res.is_open() ? raw::getfl(res.get().native_handle()) : 0);
        if (res.is_open()) res.close();
        if (fd >= 0 && cond != 4) raw::close(fd);
        if (peer >= 0) raw::close(peer);
      } else if (op == 22) { // cancel
        int peer;
        const int fd = make_fd(cond, path, dir, data, peer);
        name = cat("cancel ", cond_names[cond]);
        vh::current(name);
        std::unique_ptr<Obj> ob = Obj::make(2, fd);
        plan();
        if (thr) throwing(o, [&] { ob->f->cancel(); return std::string(); }); else ob->f->cancel(ec);
        sys::stop();
        known = cond == 3; expect_fail = true;
        if (peer >= 0) raw::close(peer);
      } else if (op == 23) { // file.open on closed and open objects
        const bool already = ar.chance(30);
        const unsigned how = (unsigned)ar.below(4);
        const std::string where = cond == 3 ? dir + "/missing" : cond == 5 ? dir : path;
        const OF fl = cond == 6 ? OF::truncate_existing | OF::create_new : OF::access_read_write | OF::open_existing;
        name = cat("file.open ", how, " ", cond_names[cond], already ? " already open" : "");
        vh::current(name);
        std::unique_ptr<Obj> ob = Obj::make(2, already ? raw::open(path.c_str(), O_RDONLY | O_CLOEXEC) : -1);
        bool open = false;
        plan();
        if (how == 0) { if (thr) throwing(o, [&] { ob->f->open(where.c_str(), fl); return std::string(); }); else ob->f->open(where.c_str(), fl, ec); open = ob->f->is_open(); }
        else if (how == 1) { if (thr) throwing(o, [&] { ob->f->open(boost::filesystem::path(where), fl); return std::string(); }); else ob->f->open(boost::filesystem::path(where), fl, ec); open = ob->f->is_open(); }
        else if (how == 2) { if (thr) throwing(o, [&] { asioext::file x(ioc(), where.c_str(), fl); open = x.is_open(); return std::string(); }); else { asioext::file x(ioc(), where.c_str(), fl, ec); open = x.is_open(); } }
        else { if (thr) throwing(o, [&] { asioext::file x(ioc(), boost::filesystem::path(where), fl); open = x.is_open(); return std::string(); }); else { asioext::file x(ioc(), boost::filesystem::path(where), fl, ec); open = x.is_open(); } }
        sys::stop();
        o.value = cat(open);
        known = expect_fail = (already && how < 2) || cond == 3 || cond == 5 || cond == 6;
      } else if (op == 24) { // reset
        const bool held = ar.chance(70);
        name = cat("reset ", held ? "held" : "empty");
        vh::current(name);
        asioext::unique_file_handle u(asioext::file_handle(held ? raw::open(path.c_str(), O_RDONLY | O_CLOEXEC) : -1));
        const int nfd = raw::open(dir.c_str(), O_RDONLY | O_CLOEXEC);
        plan();
        if (thr) throwing(o, [&] { u.reset(asioext::file_handle(nfd)); return std::string(); }); else u.reset(asioext::file_handle(nfd), ec);
        sys::stop();
        o.value = cat(u.is_open(), u.get().native_handle() == nfd);
      } else if (op == 25) { // read_file
        const unsigned how = (unsigned)ar.below(6);
        const std::string where = cond == 3 ? dir + "/missing" : cond == 5 ? dir : path;
        name = cat("read_file ", how, " ", cond_names[cond]);
        vh::current(name);
        std::string s = "stale contents";
        char fixed[50] = {0};
        const std::size_t fn = ar.below(50);
        const int fd = how == 2 || how == 5 ? raw::open(where.c_str(), (cond == 2 ? O_WRONLY : O_RDONLY) | O_CLOEXEC) : -1;
        plan();
        auto run = [&](EC* c) {
          auto b = asio::buffer(fixed, fn);
          switch (how) {
          case 0: if (c) asioext::read_file(where.c_str(), s, *c); else asioext::read_file(where.c_str(), s); break;
          case 1: if (c) asioext::read_file(boost::filesystem::path(where), s, *c); else asioext::read_file(boost::filesystem::path(where), s); break;
          case 2: if (c) asioext::read_file(asioext::file_handle(fd), s, *c); else asioext::read_file(asioext::file_handle(fd), s); break;
          case 3: if (c) asioext::read_file(where.c_str(), b, *c); else asioext::read_file(where.c_str(), b); break;
          case 4: if (c) asioext::read_file(boost::filesystem::path(where), b, *c); else asioext::read_file(boost::filesystem::path(where), b); break;
          default: if (c) asioext::read_file(asioext::file_handle(fd), b, *c); else asioext::read_file(asioext::file_handle(fd), b); break;
          }
          return std::string();
        };
        if (thr) throwing(o, [&] { return run(nullptr); }); else run(&ec);
        sys::stop();
        o.value = how < 3 ? s : std::string(fixed, fn);
        known = expect_fail = cond == 3 && !(how == 5 && fn == 0);
        if (fd >= 0) raw::close(fd);
      } else if (op == 26) { // write_file
        const unsigned how = (unsigned)ar.below(2);
        const std::string where = cond == 3 ? dir + "/missing/x" : cond == 5 ? dir : path;
        const std::string w = ar.bytes(ar.below(90));
        name = cat("write_file ", how, " ", cond_names[cond]);
        vh::current(name);
        plan();
        auto run = [&](EC* c) {
          if (how == 0) { if (c) asioext::write_file(where.c_str(), asio::buffer(w), *c); else asioext::write_file(where.c_str(), asio::buffer(w)); }
          else { if (c) asioext::write_file(boost::filesystem::path(where), asio::buffer(w), *c); else asioext::write_file(boost::filesystem::path(where), asio::buffer(w)); }
          return std::string();
        };
        if (thr) throwing(o, [&] { return run(nullptr); }); else run(&ec);
        sys::stop();
        known = expect_fail = cond == 3 || cond == 5;
      } else { // construction of a file object from a handle
        name = "file(handle)";
        // only the throwing form exists; nothing to compare
        o.ec = EC(); mutable_state = false;
      }
      raw::get(path, content);
      raw::stat(path.c_str(), thr ? &st : &se);
    }
    if (!t.threw) t.ec = EC();
    if (op == 27) return;
    const std::string what = cat(name, flt.err ? cat(" with ", sys::name(flt.k), " failing ", flt.err) : std::string(), " stale ", text(old), ": throwing form ",
                                 t.threw ? "threw " + text(t.ec) : std::string("returned ") + vh::show(t.value), ", error form gave ", text(e.ec), " ", vh::show(e.value));
    VH_CHECK(!t.foreign, "foreign-exception", what);
    if (!t.threw && e.ec == old && old) vh::violation("stale-code", what);
    else VH_CHECK(t.threw == !!e.ec && (!t.threw || t.ec == e.ec), "forms-disagree", what);
    if (t.threw) VH_CHECK(!!t.ec, "thrown-without-code", what);
    if (!t.threw && !e.ec) VH_CHECK(t.value == e.value, "results-differ", what);
    VH_CHECK(ct == ce && st.st_mode == se.st_mode, "effects-differ", what);
    if (known && expect_fail) VH_CHECK(!!e.ec, "failure-not-reported", what);
    vh::count(t.threw ? "both-fail" : "both-succeed");
    vh::count(cat("cond:", cond_names[cond]));
    vh::distinct(vh::hash_str(cat(name, '|', flt.k, '|', flt.err, '|', text(old))));
    static int shown = 0;
    if (shown++ < 3) vh::sample(what);
  });
}

// ------------------------------------------------------------------ C12
namespace {
struct alloc_failure {};
template <class T> struct LimitAlloc
{
  typedef T value_type;
  std::size_t max;
  explicit LimitAlloc(std::size_t m) : max(m) {}
  template <class U> LimitAlloc(const LimitAlloc<U>& o) : max(o.max) {}
  T* allocate(std::size_t n) { if (n > max) throw std::bad_alloc(); return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { ::operator delete(p); }
  template <class U> bool operator==(const LimitAlloc<U>&) const { return true; }
  template <class U> bool operator!=(const LimitAlloc<U>&) const { return false; }
};

// containers that cannot hold everything: by their size type, or by max_size()
template <class Size> struct Narrow {
  typedef char value_type; typedef Size size_type;
  std::string s; std::size_t max = std::numeric_limits<Size>::max();
  char* data() { return &s[0]; } const char* data() const { return s.data(); }
  Size size() const { return (Size)s.size(); } std::size_t max_size() const { return max; }
  void resize(Size n) { s.resize(n, 'F'); } void clear() { s.clear(); }
  char& operator[](std::size_t i) { return s[i]; } const char& operator[](std::size_t i) const { return s[i]; }
  char* begin() { return &s[0]; } char* end() { return &s[0] + s.size(); } bool empty() const { return s.empty(); }
};

// runs f with a throwing or an error-code call; returns the error
template <class F> EC run_form(bool thr, EC old, F&& f, bool& alloc)
{
  alloc = false;
  try {
    if (!thr) { EC ec = old; f(&ec); return ec; }
    f(nullptr);
    return EC();
  } catch (const vh::system_error& e) { return e.code() ? e.code() : vh::make_error_code(vh::errc::bad_message); }
  catch (const std::bad_alloc&) { alloc = true; return EC(); }
}
template <class C> void call_read(unsigned entry, const std::string& path, int fd, C& c, EC* ec)
{
  if (entry == 0) { if (ec) asioext::read_file(path.c_str(), c, *ec); else asioext::read_file(path.c_str(), c); }
  else if (entry == 1) { if (ec) asioext::read_file(boost::filesystem::path(path), c, *ec); else asioext::read_file(boost::filesystem::path(path), c); }
  else { if (ec) asioext::read_file(asioext::file_handle(fd), c, *ec); else asioext::read_file(asioext::file_handle(fd), c); }
}
template <class C> void call_write(unsigned entry, const std::string& path, const C& c, EC* ec)
{
  if (entry == 0) { if (ec) asioext::write_file(path.c_str(), c, *ec); else asioext::write_file(path.c_str(), c); }
  else { if (ec) asioext::write_file(boost::filesystem::path(path), c, *ec); else asioext::write_file(boost::filesystem::path(path), c); }
}
template <class C> C stale_container(Rng& r)
{
  C c;
  c.resize(r.chance(50) ? r.below(300) : 0);
  for (std::size_t i = 0; i < c.size(); ++i) c.data()[i] = 'S';
  return c;
}
}

VH_GROUP(whole)
{
  const std::string path = vh::scratch() + "/whole", other = vh::scratch() + "/bystander";
  raw::put(other, "bystander");
  vh::run_cases([&](Rng& r, uint64_t) {
    raw::no_stdin closed0(r.chance(15));
    if (closed0.saved >= 0) vh::count("without-stdin");
    const bool big = r.chance(vh::st().thorough ? 8 : 3);
    const bool huge = r.below(250) == 0;
    if (huge) vh::count("huge-files");
    const std::size_t size = huge ? 300000 + r.below(3000000) : big ? 60000 + r.below(200000) : r.size(9000);
    const std::string data = r.bytes(size);
    const bool thr = r.chance(50);
    const EC old = r.chance(50) ? EC(asio::error::already_open) : EC();
    const bool writing = r.chance(45);
    const std::set<int> before = raw::fds();
    std::vector<sys::fault> plan;
    int hard = 0, hard_at = -1;
    bool shrink = false, close_fails = false;
    const int k = writing ? sys::k_write : sys::k_read;
    const unsigned mode = (unsigned)r.below(8);
    const int nf = (int)r.below(7);
    if (mode < 5) for (int i = 0; i < nf; ++i) {
      if (r.chance(35)) plan.push_back({k, EINTR, -1});
      else plan.push_back({k, 0, (long)(1 + r.below(size / 3 + 2))});
    }
    if (r.chance(15)) plan.push_back({sys::k_open, EINTR, -1});
    static const std::vector<int> errs = {EIO, ENOSPC, EDQUOT, ENOMEM, EFBIG, EISDIR, EAGAIN};
    if (mode == 3 && size > 0) { hard = r.pick(errs); plan.push_back({k, hard, -1}); }
    if (mode == 4 && r.chance(40)) { hard = r.chance(50) ? EACCES : EMFILE; plan.insert(plan.begin(), {sys::k_open, hard, -1}); }
    if (mode == 4 && !hard && r.chance(50)) { if (writing) { hard = r.chance(50) ? EIO : ENOSPC; close_fails = true; plan.push_back({sys::k_close, hard, -1}); } else { hard = EIO; plan.push_back({sys::k_stat, hard, -1}); } }
    if (mode == 2 && !writing && size > 1) { shrink = true; plan.push_back({k, 0, 0}); }
    (void)hard_at;
    std::string what = cat(writing ? "write_file" : "read_file", thr ? " throwing" : " error_code", " size ", size);
    for (auto& f : plan) what += cat(" ", sys::name(f.k), f.err ? cat("!", f.err) : cat("<", f.limit));

    if (writing) {
      // what is there before: nothing, a longer or a shorter file
      const unsigned pre = (unsigned)r.below(3);
      if (pre == 0) ::unlink(path.c_str()); else raw::put(path, r.bytes(pre == 1 ? size + 1 + r.below(500) : size / 2));
      if (pre != 0) ::chmod(path.c_str(), 0644);
      const unsigned how = (unsigned)r.below(4);
      const unsigned entry = (unsigned)r.below(2);
      what += cat(" entry ", entry, " shape ", how);
      vh::current(what);
      std::vector<asio::const_buffer> seq;
      std::vector<std::string> parts;
      if (how == 1) {
        std::size_t o = 0;
        while (o < data.size() || parts.size() < 3) { std::size_t n = std::min<std::size_t>(data.size() - o, r.chance(20) ? 0 : 1 + r.below(data.size() / 3 + 5)); parts.push_back(data.substr(o, n)); o += n; }
        if (r.chance(30)) { parts.clear(); o = 0; while (parts.size() < 100) { std::size_t n = parts.size() == 99 ? data.size() - o : std::min<std::size_t>(data.size() - o, data.size() / 100); parts.push_back(data.substr(o, n)); o += n; } }
        for (auto& x : parts) seq.push_back(asio::buffer(x));
      }
      const bool wo = r.chance(30); // no permission to read
      const mode_t um = r.chance(40) ? (mode_t)r.pick(std::vector<int>{0, 027, 077, 0111}) : 022;
      if (wo) { what += " write-only"; vh::count("without-read-permission"); }
      bool alloc;
      sys::w().plan = plan;
      sys::w().deny = wo ? 1 : 0;
      sys::start();
      ::umask(um);
      const EC ec = run_form(thr, old, [&](EC* c) {
        if (how == 0) call_write(entry, path, asio::buffer(data), c);
        else if (how == 1) call_write(entry, path, seq, c);
        else if (how == 2) { std::array<asio::const_buffer, 2> a = {{asio::buffer(data.data(), data.size() / 2), asio::buffer(data.data() + data.size() / 2, data.size() - data.size() / 2)}}; call_write(entry, path, a, c); }
        else { std::string tmp = data; call_write(entry, path, asio::mutable_buffer(&tmp[0], tmp.size()), c); }
      }, alloc);
      bool hit = false;
      for (auto& l : sys::w().log) hit = hit || (l.injected && l.err == hard && hard);
      sys::stop();
      ::umask(022);
      std::string now;
      raw::get(path, now);
      if (hit) { VH_CHECK(is_sys(ec, hard), close_fails ? "close-error-lost" : "error-lost", what, " ec=", text(ec)); vh::count("write-failures"); }
      else {
        VH_CHECK(!ec, "write-fails", what, " ec=", text(ec));
        VH_CHECK(now == data, "file-content", what, " file has ", now.size(), " bytes");
        struct stat st;
        ::memset(&st, 0, sizeof st);
        ::syscall(SYS_newfstatat, AT_FDCWD, path.c_str(), &st, 0);
        const mode_t want = pre == 0 ? (mode_t)(0666 & ~um) : (mode_t)0644;
        VH_CHECK((st.st_mode & 07777) == want, "file-mode", what, " umask ", (unsigned)um, " mode ", (unsigned)(st.st_mode & 07777));
        vh::count("files-written");
      }
    } else {
      raw::put(path, data);
      const unsigned how = (unsigned)r.below(12);
      const unsigned entry = (unsigned)r.below(3);
      what += cat(" entry ", entry, " container ", how);
      vh::current(what);
      const int fd = entry == 2 ? raw::open(path.c_str(), O_RDONLY | O_CLOEXEC) : -1;
      const bool ro = r.chance(40), missing = entry != 2 && plan.empty() && r.chance(40); // no permission to write; no such file
      if (ro) { what += " read-only"; vh::count("without-write-permission"); }
      if (missing) { what += " missing"; ::unlink(path.c_str()); }
      bool alloc = false;
      std::string got;
      EC ec;
      bool fixed = false;
      std::size_t room = 0;
      std::string fx;
      bool limited = false, narrow = false;
      auto go = [&](auto&& f) { sys::w().plan = plan; sys::w().deny = ro ? 2 : 0; sys::start(); ec = run_form(thr, old, f, alloc); };
      switch (how) {
      case 0: { auto c = stale_container<std::string>(r); go([&](EC* e) { call_read(entry, path, fd, c, e); }); got = c; break; }
      case 1: { auto c = stale_container<std::vector<char>>(r); go([&](EC* e) { call_read(entry, path, fd, c, e); }); got.assign(c.begin(), c.end()); break; }
      case 2: { auto c = stale_container<std::vector<unsigned char>>(r); go([&](EC* e) { call_read(entry, path, fd, c, e); }); got.assign(c.begin(), c.end()); break; }
      case 3: { auto c = stale_container<asioext::linear_buffer>(r); go([&](EC* e) { call_read(entry, path, fd, c, e); }); got.assign((const char*)c.data(), c.size()); break; }
      case 4: case 5: { // fixed buffers: matching, smaller or larger than the file
        fixed = true;
        room = r.chance(40) ? size : r.chance(50) ? r.below(size + 1) : size + 1 + r.below(50);
        std::vector<char> arena(room + 16, 'G');
        std::vector<asio::mutable_buffer> seq;
        if (how == 5) { std::size_t o = 0; while (o < room) { std::size_t n = std::min<std::size_t>(room - o, 1 + r.below(room / 3 + 3)); seq.push_back(asio::buffer(arena.data() + 8 + o, n)); o += n; if (r.chance(10)) seq.push_back(asio::mutable_buffer()); } }
        go([&](EC* e) {
          if (how == 5) { const std::vector<asio::mutable_buffer>& cs = seq; call_read(entry, path, fd, cs, e); }
          else { const asio::mutable_buffer b(arena.data() + 8, room); call_read(entry, path, fd, b, e); }
        });
        got.assign(arena.data() + 8, room);
        VH_CHECK(std::string(arena.data(), 8) == "GGGGGGGG" && std::string(arena.data() + 8 + room, 8) == "GGGGGGGG", "guard", what);
        break; }
      case 6: { std::array<char, 512> c; fixed = true; room = 512; go([&](EC* e) { const auto b = asio::buffer(c); call_read(entry, path, fd, b, e); }); got.assign(c.data(), 512); break; }
      case 9: { Narrow<uint8_t> c; narrow = size > 255; go([&](EC* e) { call_read(entry, path, fd, c, e); }); got = c.s; break; }
      case 10: { Narrow<uint16_t> c; narrow = size > 65535; go([&](EC* e) { call_read(entry, path, fd, c, e); }); got = c.s; break; }
      case 11: { Narrow<std::size_t> c; c.max = r.chance(50) ? size : r.below(size + 2); narrow = size > c.max; go([&](EC* e) { call_read(entry, path, fd, c, e); }); got = c.s; break; }
      default: { // a container that cannot grow that far
        limited = size > 600;
        if (how == 7) { asioext::basic_linear_buffer<LimitAlloc<uint8_t>> c((LimitAlloc<uint8_t>(limited ? 500 : 1 << 20))); go([&](EC* e) { call_read(entry, path, fd, c, e); }); got.assign((const char*)c.data(), c.size()); }
        else { std::vector<char, LimitAlloc<char>> c((LimitAlloc<char>(limited ? 500 : 1 << 20))); go([&](EC* e) { call_read(entry, path, fd, c, e); }); got.assign(c.begin(), c.end()); }
        break; }
      }
      bool hit = false, cut = false;
      for (auto& l : sys::w().log) { hit = hit || (hard && l.injected && l.err == hard); cut = cut || (shrink && l.injected && l.ret == 0); }
      for (auto& f : sys::w().plan) if (shrink && f.k == k && f.limit == 0 && f.err == 0) cut = false;
      sys::stop();
      if (missing) {
        VH_CHECK(is_sys(ec, ENOENT), "missing-file-accepted", what, " ec=", text(ec));
        std::string now;
        VH_CHECK(!raw::get(path, now), "file-created-by-reading", what);
        raw::put(path, data);
        vh::count("missing-files");
      }
      else if (hit) { VH_CHECK(is_sys(ec, hard) && !alloc, "error-lost", what, " ec=", text(ec)); vh::count("read-failures"); }
      else if (narrow) { VH_CHECK(!!ec && !alloc, "too-large-file-accepted", what, " ec=", text(ec), " got ", got.size(), " bytes"); vh::count("too-large-for-container"); }
      else if (limited) { VH_CHECK(alloc || ec, "allocation-failure-lost", what); vh::count("allocation-failures"); }
      else if (cut && (!fixed || room > 0)) { VH_CHECK(!!ec, "shrunk-file-accepted", what); vh::count("shrunk-files"); }
      else if (fixed && room > size) { VH_CHECK(ec == asio::error::eof, "larger-buffer-accepted", what, " ec=", text(ec), " room ", room); vh::count("larger-buffers"); }
      else {
        VH_CHECK(!ec && !alloc, "read-fails", what, " ec=", text(ec), " room ", room);
        VH_CHECK(got == (fixed ? data.substr(0, room) : data), "wrong-data", what, " got ", got.size(), " bytes");
        if (entry == 2) VH_CHECK((std::size_t)::lseek(fd, 0, SEEK_CUR) == got.size(), "final-position", what, " at ", (long long)::lseek(fd, 0, SEEK_CUR), " after ", got.size(), " bytes");
        vh::count("files-read");
      }
      if (entry == 2) VH_CHECK(raw::getfd(fd) != -1, "callers-handle-closed", what);
      if (fd >= 0) raw::close(fd);
      std::string now;
      raw::get(path, now);
      VH_CHECK(now == data, "file-touched", what);
    }
    VH_CHECK(fds_settled(before) == before, "descriptor-leak", what);
    VH_CHECK(sys::w().trouble.empty(), "closed-twice", what, " ", sys::w().trouble);
    if (!plan.empty()) vh::count("faulted");
    if (big) vh::count("large");
    vh::distinct(vh::hash_str(what));
    static int shown = 0;
    if (shown++ < 3) vh::sample(what);
  });
  std::string b;
  raw::get(other, b);
  VH_CHECK(b == "bystander", "other-file-touched", "bystander");
}

VH_MAIN
