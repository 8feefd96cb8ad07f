// C07 open, C08 I/O model, C09 fault injection, C13 metadata.
#include "handles.hpp"
#include <array>
#include <sys/stat.h>
#include <map>

using vh::Rng;
using vh::cat;
namespace raw = sys::raw;

// ------------------------------------------------------------------ C07
namespace {
std::string listing(const std::string& dir)
{
  std::string out;
  DIR* d = ::opendir(dir.c_str());
  std::map<std::string, std::string> e;
  while (struct dirent* x = ::readdir(d)) {
    std::string n = x->d_name;
    if (n == "." || n == "..") continue;
    struct stat st;
    raw::stat((dir + "/" + n).c_str(), &st);
    std::string c;
    if (S_ISREG(st.st_mode)) { if (::geteuid() != 0) {} raw::get(dir + "/" + n, c); }
    e[n] = cat(std::oct, st.st_mode, std::dec, ":", st.st_size, ":", vh::hash_str(c));
  }
  ::closedir(d);
  for (auto& x : e) out += x.first + "=" + x.second + ";";
  return out;
}

void wipe(const std::string& dir)
{
  DIR* d = ::opendir(dir.c_str());
  if (!d) return;
  std::vector<std::string> n;
  while (struct dirent* x = ::readdir(d)) { std::string s = x->d_name; if (s != "." && s != "..") n.push_back(s); }
  ::closedir(d);
  for (auto& s : n) { std::string p = dir + "/" + s; if (::unlink(p.c_str()) != 0) ::rmdir(p.c_str()); }
}

const char* const state_names[] = {"missing", "empty", "filled", "directory", "symlink", "dangling-symlink", "no-parent",
  "parent-is-file", "name-too-long", "empty-path", "unprivileged-readonly", "unprivileged-noaccess", "symlink-loop", "trailing-slash", "unprivileged-missing"};
const int n_states = 15;

std::string prepare(const std::string& dir, int state, const std::string& data)
{
  wipe(dir);
  const std::string p = dir + "/x";
  switch (state) {
  case 1: raw::put(p, ""); return p;
  case 2: case 13: raw::put(p, data, 0640); return state == 13 ? p + "/" : p;
  case 3: ::mkdir(p.c_str(), 0755); return p;
  case 4: raw::put(dir + "/target", data); (void)!::symlink("target", p.c_str()); return p;
  case 5: (void)!::symlink("nowhere", p.c_str()); return p;
  case 6: return dir + "/sub/x";
  case 7: raw::put(p, data); return p + "/y";
  case 8: return dir + "/" + std::string(300, 'n');
  case 9: return "";
  case 10: raw::put(p, data); raw::chmod(p.c_str(), 0444); return p;
  case 11: raw::put(p, data); raw::chmod(p.c_str(), 0); return p;
  case 12: (void)!::symlink("x", p.c_str()); return p;
  default: return p;
  }
}
}

VH_GROUP(open)
{
  const std::string a = vh::scratch() + "/a", b = vh::scratch() + "/b";
  ::mkdir(a.c_str(), 0755); ::mkdir(b.c_str(), 0755);
  ::chmod(vh::scratch().c_str(), 0755);
  const bool root = ::geteuid() == 0;
  warm_up();
  vh::run_cases([&](Rng& r, uint64_t) {
    raw::no_stdin closed0(r.chance(15));
    if (closed0.saved >= 0) vh::count("without-stdin");
    const int state = (int)r.below(n_states);
    int word = 0;
    static const int disp[] = {0, 4, 8, 16, 32, 64};
    if (r.chance(75)) word = disp[r.below(6)] | (int)(1 + r.below(3));
    else word = (int)r.below(512);
    if (r.chance(20)) word |= (int)r.below(4) << 7;
    const int mode = r.chance(30) ? 0666 : (int)r.below(512);
    const int um = r.chance(40) ? 022 : (int)r.below(512) & 077;
    const std::string data = r.bytes(1 + r.below(60));
    const int entry = (int)r.below(8);
    bool custom = r.chance(8);
    const int ndisp = __builtin_popcount(word & 0x7c);
    const int acc = word & 3;
    const bool dflt = r.chance(2); // default-constructed open_args
    const bool valid = ndisp <= 1 && !((word & 64) && !(word & 2));
    if (!valid || dflt) custom = false;

    int native = 0;
    if (word & 4) native = O_CREAT | O_EXCL;
    else if (word & 8) native = O_CREAT | O_TRUNC;
    else if (word & 32) native = O_CREAT;
    else if (word & 64) native = O_TRUNC;
    native |= acc == 3 ? O_RDWR : acc == 2 ? O_WRONLY : O_RDONLY;
    asioext::open_args args(static_cast<OF>(word), static_cast<asioext::file_perms>(mode));
    if (dflt) args = asioext::open_args();
    VH_CHECK(args.is_valid() == (valid && !dflt), "validity", "flags ", word, " valid=", args.is_valid());
    VH_CHECK(asioext::is_valid(static_cast<OF>(word)) == valid, "validity", "flags ", word);
    if (custom) { native |= r.chance(50) ? O_APPEND : O_SYNC; args.native_flags(native); args.mode(mode); }
    vh::current(cat("open state=", state_names[state], " flags=0x", std::hex, word, std::oct, " mode=", mode, " umask=", um, std::dec, " entry=", entry, custom ? " custom" : "", dflt ? " default-args" : ""));

    const std::string pa = prepare(a, state, data), pb = prepare(b, state, data);
    const bool drop = root && (state == 10 || state == 11 || state == 14);
    ::chmod(a.c_str(), 0755); ::chmod(b.c_str(), 0755);
    const std::string before = listing(a);
    // interruptions while opening; the path may change in the meantime
    const unsigned eintr = valid && !dflt && r.chance(20) ? 1 + (unsigned)r.below(3) : 0;
    const unsigned race = eintr && (state == 0 || state == 1 || state == 2) ? (unsigned)r.below(2) : 0;
    if (eintr) vh::count("interrupted-opens");
    if (race) { vh::count("changed-meanwhile"); if (state == 0) raw::put(pb, data); else ::unlink(pb.c_str()); }
    ::umask(um);
    if (drop && ::seteuid(65534) != 0) { std::perror("seteuid"); std::exit(3); }
    // reference: the kernel itself on the twin directory
    int ref = -1, referr = 0;
    if (valid && !dflt) { ref = raw::open(pb.c_str(), native | O_CLOEXEC, mode); referr = ref < 0 ? errno : 0; }
    const std::set<int> fds0 = raw::fds();
    EC ec = asio::error::bad_descriptor;
    int code = 0, fd = -1;
    bool isopen = false;
    asioext::unique_file_handle u;
    std::unique_ptr<asioext::file> f;
    std::exception_ptr foreign;
    unsigned seen = 0;
    sys::w().plan.assign(eintr, sys::fault{sys::k_open, EINTR, -1});
    sys::w().interrupted = [&] {
      if (++seen != eintr || !race) return;
      ::umask(022);
      if (state == 0) raw::put(pa, data); else ::unlink(pa.c_str());
      ::umask(um);
    };
    const int from = sys::some_from(r);
    sys::start();
    sys::w().from = from;
    try {
      switch (entry) {
      case 0: u = asioext::open(pa.c_str(), args, ec); break;
      case 1: u = asioext::open(pa.c_str(), args); ec = EC(); break;
      case 2: f.reset(new asioext::file(ioc(), pa.c_str(), args, ec)); break;
      case 3: f.reset(new asioext::file(ioc(), pa.c_str(), args)); ec = EC(); break;
      case 4: f.reset(new asioext::file(ioc())); f->open(pa.c_str(), args, ec); break;
      case 5: f.reset(new asioext::file(ioc())); ec = EC(); f->open(pa.c_str(), args); break;
#ifdef ASIOEXT_HAS_BOOST_FILESYSTEM
      case 6: u = asioext::open(boost::filesystem::path(pa), args, ec); break;
      case 7: f.reset(new asioext::file(ioc(), boost::filesystem::path(pa), args, ec)); break;
#else
      default: f.reset(new asioext::file(ioc(), pa.c_str(), args, ec)); break;
#endif
      }
    } catch (const vh::system_error& e) { ec = e.code(); }
    sys::stop();
    sys::w().interrupted = nullptr;
    if (f) { isopen = f->is_open(); fd = isopen ? f->native_handle() : -1; }
    else { isopen = u.is_open(); fd = isopen ? u.get().native_handle() : -1; }
    code = ec.value();
    std::set<int> fds1 = fds0;
    if (isopen) fds1.insert(fd);
    fds1 = fds_settled(fds1);
    const bool diverted = !eintr || seen != 0; // false: opened without any call the plan knows
    if (drop && ::seteuid(0) != 0) std::exit(3);
    ::umask(022);
    std::set<int> fresh;
    for (int x : fds1) if (!fds0.count(x)) fresh.insert(x);
    const std::string what = cat("path ", state_names[state], " flags ", word, " mode ", mode, " umask ", um, " entry ", entry, eintr ? cat(" interrupted ", eintr, race ? " path changed" : "") : std::string(), ": ec=", text(ec), " want ", valid && !dflt ? cat("errno ", referr) : std::string("rejection"));
    VH_CHECK(!ec == isopen, "open-result-mismatch", what, " is_open=", isopen);
    VH_CHECK(isopen ? (fresh.size() == 1 && *fresh.begin() == fd) : fresh.empty(), "open-descriptor-leak", what, " new descriptors ", fresh.size());
    if (!valid || dflt) {
      VH_CHECK(!!ec, "open-accepts-invalid-flags", what);
      VH_CHECK(listing(a) == before, "open-invalid-has-effect", what);
      vh::count("invalid-rejected");
    } else {
      // No access bit at all: what the handle permits is unspecified.
      if (diverted && (acc != 0 || custom)) {
        VH_CHECK((ref >= 0) == isopen, ref >= 0 ? "open-fails" : "open-succeeds", what);
        if (ref < 0 && !isopen) VH_CHECK(is_sys(ec, referr), "open-wrong-error", what);
        if (ref >= 0 && isopen) {
          const int mask = O_ACCMODE | O_APPEND | O_SYNC | O_NONBLOCK | O_DIRECT | O_NOATIME | O_PATH;
          VH_CHECK((raw::getfl(fd) & mask) == (raw::getfl(ref) & mask), "open-wrong-access", what, " F_GETFL ", raw::getfl(fd), " want ", raw::getfl(ref));
        }
      }
      const std::string la = listing(a), lb = listing(b);
      VH_CHECK(la == lb || !diverted, "open-wrong-effect", what, " now {", la, "} want {", lb, "}");
      if (isopen) {
        VH_CHECK(raw::getfd(fd) & FD_CLOEXEC, "open-inheritable", what);
        VH_CHECK(raw::tell(fd) == 0 || state == 3, "open-wrong-position", what);
        struct stat s1, s2;
        if (state != 3 && raw::fstat(fd, &s1) == 0 && ::stat(pa.c_str(), &s2) == 0)
          VH_CHECK(s1.st_ino == s2.st_ino, "open-wrong-file", what);
        vh::count("opened");
        vh::count(cat("opened:", state_names[state]));
      } else vh::count("failed");
    }
    if (ref >= 0) raw::close(ref);
    vh::distinct(vh::hash_str(cat(state, ' ', word, ' ', entry)));
  });
  wipe(a); wipe(b);
  vh::sample("open of every path state through eight entry points, compared with open(2) on a twin directory");
}

// ------------------------------------------------------------------ C08
namespace {
struct MFile
{
  std::map<uint64_t, std::string> pages;
  uint64_t size = 0;
  std::string read(uint64_t off, std::size_t n) const
  {
    std::string s;
    if (off >= size) return s;
    if (n > size - off) n = size - off;
    s.assign(n, '\0');
    for (std::size_t i = 0; i < n;) {
      uint64_t pg = (off + i) >> 12; std::size_t in = (off + i) & 4095, k = std::min<std::size_t>(4096 - in, n - i);
      auto it = pages.find(pg);
      if (it != pages.end()) std::memcpy(&s[i], it->second.data() + in, k);
      i += k;
    }
    return s;
  }
  void write(uint64_t off, const std::string& d)
  {
    for (std::size_t i = 0; i < d.size();) {
      uint64_t pg = (off + i) >> 12; std::size_t in = (off + i) & 4095, k = std::min<std::size_t>(4096 - in, d.size() - i);
      auto& p = pages[pg];
      if (p.empty()) p.assign(4096, '\0');
      std::memcpy(&p[in], d.data() + i, k);
      i += k;
    }
    if (!d.empty() && off + d.size() > size) size = off + d.size();
  }
  void resize(uint64_t n)
  {
    if (n < size) {
      pages.erase(pages.lower_bound((n + 4095) >> 12), pages.end());
      auto it = pages.find(n >> 12);
      if (it != pages.end()) std::fill(it->second.begin() + (n & 4095), it->second.end(), '\0');
    }
    size = n;
  }
};

template <class H, class Fn> void mut_shapes(H& h, Pieces& b, unsigned shape, Fn&& fn)
{
  auto v = b.mut();
  if (v.size() == 1 && shape == 0) fn(h, v[0]);
  else if (v.size() == 2 && shape < 3) fn(h, std::array<asio::mutable_buffer, 2>{{v[0], v[1]}});
  else fn(h, v);
}
template <class H, class Fn> void con_shapes(H& h, Pieces& b, unsigned shape, Fn&& fn)
{
  auto v = b.con();
  if (v.size() == 1 && shape == 0) fn(h, v[0]);
  else if (v.size() == 1 && shape == 1) fn(h, b.mut()[0]); // a mutable buffer is a constant buffer sequence, too
  else if (v.size() == 2 && shape < 3) fn(h, std::array<asio::const_buffer, 2>{{v[0], v[1]}});
  else fn(h, v);
}
}

VH_GROUP(io)
{
  warm_up();
  std::string path[3];
  for (int i = 0; i < 3; ++i) path[i] = vh::scratch() + cat("/f", i);
  vh::run_cases([&](Rng& r, uint64_t) {
    raw::no_stdin closed0(r.chance(15));
    if (closed0.saved >= 0) vh::count("without-stdin");
    MFile m[3];
    const bool huge = r.below(200) == 0; // transfers far beyond any plausible chunk size
    if (huge) vh::count("huge-transfers");
    const int from = sys::some_from(r);
    for (int i = 0; i < 3; ++i) {
      const std::string d = r.bytes(huge ? 70000 + r.below(2000000) : r.size(9000));
      raw::put(path[i], d);
      m[i].write(0, d); m[i].size = d.size();
    }
    struct Hn { std::unique_ptr<Obj> o; int file, acc; std::shared_ptr<uint64_t> pos; };
    std::vector<Hn> hs;
    std::string hist;
    const int nh = 2 + (int)r.below(4);
    for (int i = 0; i < nh; ++i) {
      Hn h;
      if (i && r.chance(25)) { // another handle of the same open file
        Hn& o = hs[r.below(hs.size())];
        asioext::unique_file_handle d = asioext::duplicate(asioext::file_handle(o.o->fd()));
        h.o = Obj::make((int)r.below(3), raw::high(d.release().native_handle(), from));
        h.file = o.file; h.acc = o.acc; h.pos = o.pos;
      } else {
        h.file = (int)r.below(3);
        h.acc = r.chance(70) ? 3 : 1 + (int)r.below(2);
        h.o = Obj::make((int)r.below(3), raw::high(asioext::open(path[h.file].c_str(), static_cast<OF>(h.acc) | OF::open_existing).release().native_handle(), from));
        h.pos = std::make_shared<uint64_t>(0);
      }
      hs.push_back(std::move(h));
    }
    const int steps = huge ? 10 : 6 + (int)r.below(30);
    for (int s = 0; s < steps; ++s) {
      Hn& h = hs[r.below(hs.size())];
      MFile& f = m[h.file];
      const unsigned op = (unsigned)r.below(13);
      const unsigned shape = (unsigned)r.below(4);
      EC ec = r.chance(50) ? EC(asio::error::already_open) : EC();
      const std::size_t np = r.chance(3) ? 65 + r.below(20) : r.chance(4) ? 7 + r.below(58) : r.below(7);
      Pieces b(r, np, huge ? (np > 10 ? 20000 : 500000) : np > 10 ? 5 : 2000, (char)0xEE);
      const std::size_t T = b.total();
      uint64_t off = 0;
      switch (r.below(8)) {
      case 0: off = 0; break;
      case 1: off = f.size; break;
      case 2: off = f.size + r.below(5000); break;
      case 3: off = (1ull << 32) - 2 + r.below(5); break;
      default: off = r.below(f.size % 100000 + 10);
      }
      const bool sparse_ok = r.chance(15);
      if (!sparse_ok && off > (1ull << 30)) off = r.below(9000);
      std::string w = cat(kind_name(h.o->kind), "/file", h.file, "/acc", h.acc, " ");
      if (op < 2) { // read_some / composed read
        const bool comp = op == 1;
        hist += cat("; ", w, comp ? "read" : "read_some", b.shape(), "@", *h.pos);
        vh::current(hist);
        std::size_t n = 0;
        h.o->with([&](auto& o) { mut_shapes(o, b, shape, [&](auto& o, const auto& bufs) { n = comp ? asio::read(o, bufs, ec) : o.read_some(bufs, ec); }); });
        const std::string want = f.read(*h.pos, T), got = b.gather();
        if (!(h.acc & 1)) {
          if (T) { VH_CHECK(!!ec && n == 0, "read-of-write-only", hist); VH_CHECK(got == std::string(T, (char)0xEE), "read-touches-buffers", hist); vh::count("wrong-mode-rejected"); }
        } else {
          const bool full = np <= 64 || comp;
          VH_CHECK(full ? n == want.size() : n <= want.size(), "read-count", hist, " returned ", n, " want ", want.size());
          if (n <= T) {
            VH_CHECK(got.compare(0, n, want, 0, n) == 0, "read-data", hist, " n=", n);
            VH_CHECK(got.substr(n) == std::string(T - n, (char)0xEE), "read-touches-buffers", hist, " n=", n);
          }
          if (comp) VH_CHECK((ec == asio::error::eof) == (T > want.size()) && (ec == asio::error::eof || !ec), "read-eof", hist, " ec=", text(ec));
          else if (full) VH_CHECK((ec == asio::error::eof) == (T > 0 && want.empty()) && (ec == asio::error::eof || !ec), "read-eof", hist, " ec=", text(ec), " n=", n);
          if (ec == asio::error::eof) vh::count("eof");
          *h.pos += n;
        }
        VH_CHECK(b.guards_ok(), "guard-bytes", hist);
        vh::count(comp ? "op:read" : "op:read_some");
      } else if (op < 4) {
        const bool comp = op == 3;
        if (*h.pos > (1ull << 30) && !sparse_ok) continue;
        const std::string d = r.bytes(T);
        b.fill(d);
        const std::vector<char> copy = b.arena;
        hist += cat("; ", w, comp ? "write" : "write_some", b.shape(), "@", *h.pos);
        vh::current(hist);
        std::size_t n = 0;
        h.o->with([&](auto& o) { con_shapes(o, b, shape, [&](auto& o, const auto& bufs) { n = comp ? asio::write(o, bufs, ec) : o.write_some(bufs, ec); }); });
        if (!(h.acc & 2)) { if (T) { VH_CHECK(!!ec && n == 0, "write-of-read-only", hist); vh::count("wrong-mode-rejected"); } }
        else {
          const bool full = np <= 64 || comp;
          VH_CHECK(!ec && (full ? n == T : n <= T && (T == 0 || n > 0)), "write-count", hist, " returned ", n, " want ", T, " ec=", text(ec));
          f.write(*h.pos, d.substr(0, std::min(n, T)));
          *h.pos += n;
        }
        VH_CHECK(copy == b.arena, "write-modifies-buffers", hist);
        vh::count(comp ? "op:write" : "op:write_some");
      } else if (op < 6) { // positional read
        const bool comp = op == 5;
        if (r.chance(4)) off = (1ull << 63) + r.below(100);
        hist += cat("; ", w, comp ? "read_at" : "read_some_at", b.shape(), "@", off);
        vh::current(hist);
        std::size_t n = 0;
        h.o->with([&](auto& o) { mut_shapes(o, b, shape, [&](auto& o, const auto& bufs) { n = comp ? asio::read_at(o, off, bufs, ec) : o.read_some_at(off, bufs, ec); }); });
        const std::string got = b.gather();
        if (off >> 63) { if (T) { VH_CHECK(!!ec && n == 0, "read-at-huge-offset", hist); vh::count("bad-offset-rejected"); } }
        else if (!(h.acc & 1)) { if (T) VH_CHECK(!!ec && n == 0, "read-of-write-only", hist); }
        else {
          const std::string want = f.read(off, T);
          const bool full = np <= 64 || comp;
          VH_CHECK(full ? n == want.size() : n <= want.size(), "read-at-count", hist, " returned ", n, " want ", want.size());
          if (n <= T) {
            VH_CHECK(got.compare(0, n, want, 0, n) == 0, "read-at-data", hist, " n=", n);
            VH_CHECK(got.substr(n) == std::string(T - n, (char)0xEE), "read-touches-buffers", hist, " n=", n);
          }
          if (comp) VH_CHECK((ec == asio::error::eof) == (T > want.size()) && (ec == asio::error::eof || !ec), "read-at-eof", hist, " ec=", text(ec));
          else if (full) VH_CHECK((ec == asio::error::eof) == (T > 0 && want.empty()) && (ec == asio::error::eof || !ec), "read-at-eof", hist, " ec=", text(ec), " n=", n);
          if (off > UINT32_MAX) vh::count("offset-beyond-4G");
        }
        VH_CHECK(b.guards_ok(), "guard-bytes", hist);
        vh::count(comp ? "op:read_at" : "op:read_some_at");
      } else if (op < 8) { // positional write
        const bool comp = op == 7;
        if (r.chance(4)) off = (1ull << 63) + r.below(100);
        const std::string d = r.bytes(T);
        b.fill(d);
        const std::vector<char> copy = b.arena;
        hist += cat("; ", w, comp ? "write_at" : "write_some_at", b.shape(), "@", off);
        vh::current(hist);
        std::size_t n = 0;
        h.o->with([&](auto& o) { con_shapes(o, b, shape, [&](auto& o, const auto& bufs) { n = comp ? asio::write_at(o, off, bufs, ec) : o.write_some_at(off, bufs, ec); }); });
        if (off >> 63) { if (T) VH_CHECK(!!ec && n == 0, "write-at-huge-offset", hist); }
        else if (!(h.acc & 2)) { if (T) VH_CHECK(!!ec && n == 0, "write-of-read-only", hist); }
        else {
          const bool full = np <= 64 || comp;
          VH_CHECK(!ec && (full ? n == T : n <= T && (T == 0 || n > 0)), "write-at-count", hist, " returned ", n, " want ", T, " ec=", text(ec));
          f.write(off, d.substr(0, std::min(n, T)));
          if (off > UINT32_MAX) vh::count("offset-beyond-4G");
        }
        VH_CHECK(copy == b.arena, "write-modifies-buffers", hist);
        vh::count(comp ? "op:write_at" : "op:write_some_at");
      } else if (op < 10) { // seek
        const int org = (int)r.below(3);
        int64_t o = r.chance(10) ? (r.chance(50) ? INT64_MIN + (int64_t)r.below(3) : INT64_MAX - (int64_t)r.below(3)) : r.range(-6000, 9000);
        if (r.chance(5)) o = (1ll << 32) + r.range(-3, 3);
        const __int128 base = org == 0 ? 0 : org == 1 ? (__int128)*h.pos : (__int128)f.size;
        const __int128 t = base + o;
        if (t > ((__int128)1 << 40) && t <= INT64_MAX) continue; // depends on the file system
        hist += cat("; ", w, "seek(", org, ",", o, ")");
        vh::current(hist);
        const uint64_t res = h.o->with([&](auto& q) { return q.seek(static_cast<asioext::seek_origin>(org), o, ec); });
        if (t < 0 || t > INT64_MAX) { VH_CHECK(!!ec, "seek-accepts-bad-target", hist, " returned ", res); vh::count("bad-seek-rejected"); }
        else { VH_CHECK(!ec && res == (uint64_t)t, "seek-result", hist, " returned ", res, " ec=", text(ec)); *h.pos = (uint64_t)t; }
        vh::count("op:seek");
      } else if (op == 10) {
        const uint64_t sz = h.o->with([&](auto& q) { return q.size(ec); });
        VH_CHECK(!ec && sz == f.size, "size", hist, "; ", w, "size=", sz, " want ", f.size);
        vh::count("op:size");
      } else if (op == 11) {
        uint64_t n = r.chance(5) ? (1ull << 63) + r.below(9) : r.chance(sparse_ok ? 30 : 0) ? (1ull << 32) + r.below(10) : r.size(12000);
        hist += cat("; ", w, "truncate(", n, ")");
        vh::current(hist);
        h.o->with([&](auto& q) { q.truncate(n, ec); });
        if (n >> 63 || !(h.acc & 2)) VH_CHECK(!!ec, "truncate-accepts", hist);
        else { VH_CHECK(!ec, "truncate-fails", hist, " ec=", text(ec)); f.resize(n); }
        vh::count("op:truncate");
      }
      // positions and sizes of everything
      for (auto& x : hs) {
        EC e2 = asio::error::already_open;
        const uint64_t p = x.o->with([&](auto& q) { return q.position(e2); });
        VH_CHECK(!e2 && p == *x.pos, "position", hist, " => ", kind_name(x.o->kind), "/file", x.file, " at ", p, " want ", *x.pos);
        *x.pos = raw::tell(x.o->fd());
      }
      for (int i = 0; i < 3; ++i) {
        struct stat st; raw::stat(path[i].c_str(), &st);
        VH_CHECK((uint64_t)st.st_size == m[i].size, "file-size", hist, " => file", i, " has ", st.st_size, " want ", m[i].size);
      }
      if (vh::st().violations.size() > 20) return;
    }
    // contents through independent descriptors
    for (int i = 0; i < 3; ++i) {
      int fd = raw::open(path[i].c_str(), O_RDONLY | O_CLOEXEC);
      std::set<uint64_t> pgs;
      for (auto& p : m[i].pages) { pgs.insert(p.first); pgs.insert(p.first + 1); if (p.first) pgs.insert(p.first - 1); }
      for (uint64_t pg : pgs) {
        std::string got(4096, '\0');
        long n = raw::pread(fd, &got[0], 4096, pg << 12);
        got.resize(n < 0 ? 0 : n);
        VH_CHECK(got == m[i].read(pg << 12, 4096), "file-content", hist, " => file", i, " page ", pg);
      }
      raw::close(fd);
    }
    vh::distinct(vh::hash_str(hist));
    static int shown = 0;
    if (shown++ < 2) vh::sample(hist);
  });
}

// ------------------------------------------------------------------ C09
VH_GROUP(faults)
{
  warm_up();
  const std::string path = vh::scratch() + "/ff", path2 = vh::scratch() + "/ff2";
  static const std::vector<int> rerr = {EIO, EAGAIN, ENOMEM, EISDIR, EBADF, EINVAL};
  static const std::vector<int> werr = {EIO, ENOSPC, EDQUOT, EFBIG, EPIPE, EAGAIN};
  static const std::vector<int> oerr = {EACCES, EMFILE, ENFILE, ENOMEM, ENOSPC, ETXTBSY, EROFS, ENXIO};
  vh::run_cases([&](Rng& r, uint64_t) {
    raw::no_stdin closed0(r.chance(15));
    if (closed0.saved >= 0) vh::count("without-stdin");
    const std::string data = r.bytes(1 + r.below(300));
    raw::put(path, data);
    const int kind = (int)r.below(3);
    const unsigned op = (unsigned)r.below(14);
    const unsigned eintr = r.chance(50) ? (unsigned)r.below(5) : 0;
    EC ec = r.chance(50) ? EC(asio::error::already_open) : EC();
    const std::set<int> before = raw::fds();
    auto plan = [&](int k, int err, long limit) {
      auto& p = sys::w().plan;
      p.clear();
      for (unsigned i = 0; i < eintr; ++i) p.push_back({k, EINTR, -1});
      if (err || limit >= 0) p.push_back({k, err, limit});
    };
    const unsigned mode = (unsigned)r.below(3); // 0 healthy after the interruptions, 1 short, 2 hard error
    std::string what;
    if (op == 0) { // open
      const int err = mode == 2 ? r.pick(oerr) : 0;
      what = cat("open eintr=", eintr, " err=", err);
      vh::current(what);
      asioext::unique_file_handle u;
      std::unique_ptr<asioext::file> f;
      plan(sys::k_open, err, -1);
      sys::start();
      if (kind < 2) u = asioext::open(path2.c_str(), OF::access_write | OF::create_always, ec);
      else f.reset(new asioext::file(ioc(), path2.c_str(), OF::access_write | OF::create_always, ec));
      sys::stop();
      const bool isopen = f ? f->is_open() : u.is_open();
      if (sys::calls(sys::k_open) == 0 && isopen) return; // opened through a call that isn't diverted
      VH_CHECK(isopen == !ec && isopen == !err, "open-under-fault", what, " ec=", text(ec), " open=", isopen);
      if (err) VH_CHECK(is_sys(ec, err), "wrong-error", what, " ec=", text(ec));
      VH_CHECK(sys::calls(sys::k_open) == eintr + 1, "retries", what, " ", sys::show_log());
      VH_CHECK(raw::fds().size() == before.size() + (isopen ? 1 : 0), "descriptor-leak", what);
    } else {
      int fd = raw::open(path.c_str(), O_RDWR | O_CLOEXEC);
      std::unique_ptr<Obj> o = Obj::make(kind, fd);
      const uint64_t start = r.below(data.size());
      raw::seek(fd, start);
      const std::size_t np = 1 + r.below(4);
      Pieces b(r, np, 80, (char)0xEE);
      const std::size_t T = b.total();
      std::string expect = data;
      uint64_t pos = start;
      if (op <= 4) { // transfers
        const bool wr = op == 2 || op == 4, at = op >= 3;
        const uint64_t off = at ? r.below(data.size()) : start;
        const int err = mode == 2 ? r.pick(wr ? werr : rerr) : 0;
        const long lim = mode == 1 && T > 1 ? 1 + (long)r.below(T - 1) : -1;
        const std::string d = r.bytes(T);
        if (wr) b.fill(d);
        what = cat(kind_name(kind), wr ? " write" : " read", at ? "_at " : " ", b.shape(), "@", off, " eintr=", eintr, " err=", err, " short=", lim);
        vh::current(what);
        std::size_t n = 0;
        plan(wr ? sys::k_write : sys::k_read, err, lim);
        sys::start();
        if (!wr && !at) n = o->with([&](auto& q) { return q.read_some(b.mut(), ec); });
        if (wr && !at) n = o->with([&](auto& q) { return q.write_some(b.con(), ec); });
        if (!wr && at) n = o->with([&](auto& q) { return q.read_some_at(off, b.mut(), ec); });
        if (wr && at) n = o->with([&](auto& q) { return q.write_some_at(off, b.con(), ec); });
        sys::stop();
        if (T == 0 && sys::w().log.empty()) return; // nothing to transfer: no system call needed
        if (sys::w().log.empty() && n == (wr ? T : std::min<std::size_t>(T, data.size() - off))) return; // moved by a call that isn't diverted
        VH_CHECK(sys::calls(wr ? sys::k_write : sys::k_read) == eintr + 1, "retries", what, " ", sys::show_log());
        if (err) {
          VH_CHECK(is_sys(ec, err) && n == 0, "wrong-error", what, " ec=", text(ec), " n=", n);
          vh::count("hard-errors");
        } else {
          const std::size_t room = wr ? T : std::min<std::size_t>(T, data.size() - off);
          const std::size_t want = lim >= 0 ? std::min<std::size_t>(lim, room) : room;
          VH_CHECK(n == want, "wrong-count", what, " returned ", n, " want ", want, " ", sys::show_log());
          VH_CHECK(!ec, "spurious-error", what, " ec=", text(ec));
          if (wr) { std::string x = d.substr(0, want); if (off + x.size() > expect.size()) expect.resize(off + x.size()); expect.replace(off, x.size(), x); }
          else { std::string g = b.gather(); VH_CHECK(g.substr(0, want) == data.substr(off, want) && g.substr(want) == std::string(T - want, (char)0xEE), "wrong-data", what); }
          if (!at) pos += want;
          if (lim >= 0) vh::count("short-transfers");
          if (eintr) vh::count("interrupted-and-retried");
        }
      } else if (op <= 6) { // composed transfer under a storm of interruptions and short transfers
        const bool wr = op == 6;
        Pieces c(r, 1 + r.below(5), 200, (char)0xEE);
        const std::string d = r.bytes(c.total());
        if (wr) c.fill(d);
        auto& p = sys::w().plan;
        p.clear();
        int err = 0;
        const int k = wr ? sys::k_write : sys::k_read;
        std::size_t moved = 0; // bytes before the hard error
        const std::size_t room = wr ? c.total() : std::min(c.total(), data.size() - (std::size_t)start);
        const unsigned n_instr = (unsigned)r.below(12);
        for (unsigned i = 0; i < n_instr; ++i) {
          if (r.chance(40)) p.push_back({k, EINTR, -1});
          else { long l = 1 + (long)r.below(30); p.push_back({k, 0, l}); }
        }
        if (mode == 2) { err = r.pick(wr ? werr : rerr); p.push_back({k, err, -1}); }
        what = cat(kind_name(kind), wr ? " composed write" : " composed read", c.shape(), "@", start, " instructions=", n_instr, " err=", err);
        vh::current(what);
        sys::start();
        const std::size_t n = wr ? o->with([&](auto& q) { return asio::write(q, c.con(), ec); }) : o->with([&](auto& q) { return asio::read(q, c.mut(), ec); });
        bool hit = false;
        for (auto& l : sys::w().log) { if (l.k == k && l.ret > 0) moved += l.ret; if (err && l.k == k && l.err == err) hit = true; }
        sys::stop();
        if (sys::calls(k) == 0 && n == room && room) return; // moved by calls that aren't diverted
        VH_CHECK(n == moved && n <= room, "wrong-count", what, " returned ", n, " moved ", moved, " ", sys::show_log());
        if (hit) VH_CHECK(is_sys(ec, err), "wrong-error", what, " ec=", text(ec));
        else VH_CHECK(n == room && (c.total() > room ? ec == asio::error::eof : !ec), "lost-data", what, " returned ", n, " of ", room, " ec=", text(ec), " ", sys::show_log());
        if (n <= room) {
          if (wr) { std::string x = d.substr(0, n); if (start + n > expect.size()) expect.resize(start + n); expect.replace(start, n, x); }
          else { std::string g = c.gather(); VH_CHECK(g.substr(0, n) == data.substr(start, n), "wrong-data", what); }
        }
        pos += n;
        vh::count("composed-under-storm");
      } else if (op == 7 || op == 8) { // close (explicit), error after the descriptor is gone
        const int err = mode == 2 ? (r.chance(50) ? EINTR : EIO) : 0;
        what = cat(kind_name(kind), " close err=", err);
        vh::current(what);
        sys::w().plan.clear();
        if (err) sys::w().plan.push_back({sys::k_close, err, -1});
        sys::start();
        o->with([&](auto& q) { q.close(ec); });
        sys::stop();
        VH_CHECK(err ? is_sys(ec, err) : !ec, "close-error", what, " ec=", text(ec));
        VH_CHECK(sys::calls(sys::k_close) == 1, "close-count", what, " ", sys::show_log());
        VH_CHECK(!o->with([&](auto& q) { return q.is_open(); }), "open-after-close", what);
        sys::start();
        o->with([&](auto& q) { q.close(ec); });
        o.reset();
        sys::stop();
        VH_CHECK(sys::calls(sys::k_close) == 0, "closed-twice", what, " ", sys::show_log());
        VH_CHECK(fds_settled(before) == before, "descriptor-leak", what);
        if (err) vh::count("close-failures");
        vh::distinct(vh::hash_str(what));
        return;
      } else if (op == 9) { // destruction and replacement while close fails
        const int err = r.chance(50) ? EINTR : EIO;
        const unsigned how = (unsigned)r.below(3);
        what = cat(kind_name(kind), " close failing in ", how == 0 ? "destructor" : how == 1 ? "move assignment" : "destructor (via move)", " err=", err);
        vh::current(what);
        if (kind == 0) return;
        sys::w().plan = {{sys::k_close, err, -1}};
        sys::start();
        if (how == 0) o.reset();
        else if (how == 1) {
          // the assigned-to object may report the failure, but nothing may leak or be closed twice
          std::unique_ptr<Obj> n = Obj::make(kind, raw::open(path.c_str(), O_RDONLY | O_CLOEXEC));
          try { if (kind == 1) o->u = std::move(n->u); else *o->f = std::move(*n->f); } catch (const vh::system_error& e) { VH_CHECK(is_sys(e.code(), err), "wrong-error", what); }
          n.reset(); o.reset();
        } else {
          if (kind == 1) { asioext::unique_file_handle m(std::move(o->u)); } else { asioext::file m(std::move(*o->f)); }
          o.reset();
        }
        sys::stop();
        VH_CHECK(sys::calls(sys::k_close) == (how == 1 ? 2u : 1u), "close-count", what, " ", sys::show_log());
        VH_CHECK(fds_settled(before) == before, "descriptor-leak", what);
        VH_CHECK(sys::w().trouble.empty(), "closed-twice", what, " ", sys::w().trouble);
        vh::count("close-failures");
        vh::distinct(vh::hash_str(what));
        return;
      } else if (op == 10) { // duplicate
        const int err = mode == 2 ? EMFILE : 0;
        what = cat("duplicate err=", err);
        vh::current(what);
        sys::w().plan.clear();
        if (err) sys::w().plan.push_back({sys::k_dup, err, -1});
        sys::start();
        { asioext::unique_file_handle d = asioext::duplicate(asioext::file_handle(fd), ec);
          VH_CHECK(d.is_open() == !err, "duplicate-under-fault", what); }
        sys::stop();
        VH_CHECK(err ? is_sys(ec, err) : !ec, "wrong-error", what, " ec=", text(ec));
      } else { // single calls that fail
        static const std::vector<int> errs = {EIO, EPERM, EROFS, ENOSPC, EOVERFLOW, EINVAL, EINTR, EINTR};
        const int err = r.pick(errs);
        const unsigned which = (unsigned)r.below(7);
        static const char* names[] = {"size", "truncate", "seek", "permissions()", "permissions(add)", "times()", "times(t)"};
        static const int kinds[] = {sys::k_stat, sys::k_trunc, sys::k_seek, sys::k_stat, sys::k_chmod, sys::k_stat, sys::k_utime};
        what = cat(kind_name(kind), " ", names[which], " err=", err);
        vh::current(what);
        int k = kinds[which];
        if (which == 4 && r.chance(50)) k = sys::k_stat;
        sys::w().plan = {{k, err, -1}};
        struct stat s0, s1;
        raw::fstat(fd, &s0);
        sys::start();
        o->with([&](auto& q) {
          switch (which) {
          case 0: (void)q.size(ec); break;
          case 1: q.truncate(3, ec); break;
          case 2: (void)q.seek(asioext::seek_origin::from_begin, 1, ec); break;
          case 3: (void)q.permissions(ec); break;
          case 4: q.permissions(asioext::file_perms::owner_exec, asioext::file_perm_options::add, ec); break;
          case 5: (void)q.times(ec); break;
          case 6: q.times(asioext::file_times{asioext::file_time_type(), asioext::file_time_type(asioext::file_time_type::duration(5)), asioext::file_time_type()}, ec); break;
          }
          return 0;
        });
        const bool used = !sys::w().log.empty() && sys::w().log.back().injected;
        bool reached = false;
        for (auto& l : sys::w().log) reached = reached || (l.injected && l.err == err);
        sys::stop();
        (void)used;
        if (reached && err == EINTR && !ec) { // an interrupted call may be repeated, but then it must have been
          raw::fstat(fd, &s1);
          if (which == 1) { VH_CHECK(s1.st_size == 3, "success-without-effect", what); expect.resize(3); }
          else if (which == 2) { VH_CHECK(raw::tell(fd) == 1, "success-without-effect", what); pos = 1; }
          else if (which == 4) VH_CHECK(s1.st_mode & 0100, "success-without-effect", what);
          else if (which == 6) VH_CHECK(s1.st_atim.tv_sec == 0 && s1.st_atim.tv_nsec == 5, "success-without-effect", what);
          else VH_CHECK(sys::calls(sys::k_stat) > 1, "success-without-effect", what);
          vh::count("interrupted-and-repeated");
        } else if (reached) {
          VH_CHECK(is_sys(ec, err), "wrong-error", what, " ec=", text(ec));
          if (err == EINTR) vh::count("interrupted-and-reported");
          raw::fstat(fd, &s1);
          VH_CHECK(s0.st_mode == s1.st_mode && s0.st_size == s1.st_size && s0.st_atim.tv_nsec == s1.st_atim.tv_nsec && s0.st_atim.tv_sec == s1.st_atim.tv_sec, "failed-operation-has-effect", what);
          vh::count("hard-errors");
        }
      }
      std::string now;
      raw::get(path, now);
      VH_CHECK(now == expect, "file-content", what, " file has ", now.size(), " bytes, want ", expect.size());
      VH_CHECK((uint64_t)raw::tell(fd) == pos, "position", what, " at ", raw::tell(fd), " want ", pos);
    }
    VH_CHECK(fds_settled(before) == before, "descriptor-leak", what);
    VH_CHECK(sys::w().trouble.empty(), "closed-twice", what, " ", sys::w().trouble);
    vh::count("faulted-operations");
    vh::distinct(vh::hash_str(what));
    static int shown = 0;
    if (shown++ < 4) vh::sample(what);
  });
}

// ------------------------------------------------------------------ C13
struct NamedPerm { asioext::file_perms p; int code; };
const NamedPerm named_perms[] = {
  {asioext::file_perms::owner_read, 0400}, {asioext::file_perms::owner_write, 0200}, {asioext::file_perms::owner_exec, 0100}, {asioext::file_perms::owner_all, 0700},
  {asioext::file_perms::group_read, 040}, {asioext::file_perms::group_write, 020}, {asioext::file_perms::group_exec, 010}, {asioext::file_perms::group_all, 070},
  {asioext::file_perms::others_read, 04}, {asioext::file_perms::others_write, 02}, {asioext::file_perms::others_exec, 01}, {asioext::file_perms::others_all, 07},
  {asioext::file_perms::all, 0777}, {asioext::file_perms::create_default, 0666}, {asioext::file_perms::none, 0}};

// the flag types are sets: every operator works bit by bit, and the assigning forms change (and return) their left operand only
template <class E>
static void flag_algebra(Rng& r, int used, const char* what)
{
  const int x = (int)r.below((uint64_t)used + 1), y = (int)r.below((uint64_t)used + 1);
  const E a = static_cast<E>(x), b = static_cast<E>(y);
  auto n = [](E e) { return static_cast<int>(e); };
  VH_CHECK(n(a | b) == (x | y) && n(a & b) == (x & y) && n(a ^ b) == (x ^ y) && (n(~a) & used) == (~x & used), "flag-operators", what, " ", x, " ", y);
  E c = a, d = a, e = a;
  E& rc = (c |= b); E& rd = (d &= b); E& re = (e ^= b);
  VH_CHECK(&rc == &c && &rd == &d && &re == &e && n(c) == (x | y) && n(d) == (x & y) && n(e) == (x ^ y) && n(b) == y, "flag-assignments", what, " ", x, " ", y);
  vh::count("flag-algebra");
}

VH_GROUP(meta)
{
  warm_up();
  typedef asioext::file_perms P;
  typedef asioext::file_perm_options O;
  typedef asioext::file_time_type T;
  const std::string path = vh::scratch() + "/meta", other = vh::scratch() + "/meta2";
  raw::put(path, "contents"); raw::put(other, "contents");
  // The times this file system can store (seconds), out of those a file_time_type can represent.
  auto stores = [&](int64_t v) {
    struct timespec ts[2] = {{(time_t)v, 5}, {(time_t)v, 6}};
    struct stat st;
    if (::syscall(SYS_utimensat, AT_FDCWD, path.c_str(), ts, 0) != 0) return false;
    raw::stat(path.c_str(), &st);
    return st.st_atim.tv_sec == v && st.st_mtim.tv_sec == v && st.st_atim.tv_nsec == 5;
  };
  int64_t earliest = -2000000000, latest = 4000000000;
  for (int64_t v : {-2147483648ll, -9223372036ll}) if (stores(v)) earliest = v;
  for (int64_t v : {4294967297ll, 9223372035ll}) if (stores(v)) latest = v;
  vh::sample(cat("times stored exactly here from second ", earliest, " to ", latest));
  vh::run_cases([&](Rng& r, uint64_t) {
    raw::no_stdin closed0(r.chance(15));
    if (closed0.saved >= 0) vh::count("without-stdin");
    const int start = (int)r.below(01000);
    const int special = r.chance(20) ? (int)r.below(8) << 9 : 0;
    raw::chmod(path.c_str(), start | special);
    raw::chmod(other.c_str(), 0604);
    const int kind = (int)r.below(3);
    const int acc = r.chance(60) ? O_RDWR : r.chance(50) ? O_RDONLY : O_WRONLY;
    std::unique_ptr<Obj> o = Obj::make(kind, raw::high(raw::open(path.c_str(), acc | O_CLOEXEC), sys::some_from(r)));
    std::string hist = cat(kind_name(kind), " start ", std::oct, start | special, std::dec);
    int model = start;
    struct timespec ma, mm;
    struct stat st;
    raw::stat(path.c_str(), &st);
    ma = st.st_atim; mm = st.st_mtim;
    for (int s = 0; s < 8; ++s) {
      EC ec = r.chance(50) ? EC(asio::error::already_open) : EC();
      const unsigned op = (unsigned)r.below(6);
      if (op < 2) {
        int bits = r.chance(20) ? 0 : (int)r.below(01000);
        P perms = static_cast<P>(bits);
        if (r.chance(50)) { // spelled with the named constants
          perms = P::none; bits = 0;
          for (uint64_t n = r.below(4) + 1; n--; ) { const NamedPerm& k = named_perms[r.below(sizeof named_perms / sizeof *named_perms)]; perms |= k.p; bits |= k.code; }
        }
        const unsigned how = (unsigned)r.below(4);
        hist += cat("; permissions(", std::oct, bits, std::dec, ",", how, ")");
        vh::current(hist);
        o->with([&](auto& q) {
          switch (how) {
          case 0: q.permissions(perms, O::replace, ec); model = bits; break;
          case 1: q.permissions(perms, O::add, ec); model |= bits; break;
          case 2: q.permissions(perms, O::remove, ec); model &= ~bits; break;
          case 3: q.permissions(perms, ec); model = bits; break;
          }
        });
        VH_CHECK(!ec, "permissions-fail", hist, " ec=", text(ec));
        raw::stat(path.c_str(), &st);
        VH_CHECK((st.st_mode & 0777) == (mode_t)model, "permissions-wrong", hist, " now ", std::oct, st.st_mode, " want ", model);
        if (how == 1 || how == 2) VH_CHECK((st.st_mode & 07000) == (mode_t)special || (how == 0 || how == 3), "special-bits", hist, " now ", std::oct, st.st_mode);
        else break; // replace says nothing about the special bits
        vh::count(how == 1 ? "perm-add" : "perm-remove");
      } else if (op == 2) {
        const P p = o->with([&](auto& q) { return q.permissions(ec); });
        VH_CHECK(!ec && (static_cast<int>(p) & 0777) == model, "permissions-query", hist, " got ", std::oct, static_cast<int>(p), " want ", model);
        for (const NamedPerm& k : named_perms) VH_CHECK(((p & k.p) == k.p) == ((model & k.code) == k.code), "permissions-names", hist, " mode ", std::oct, model, " constant for ", k.code);
        vh::count("perm-query");
      } else if (op == 3) {
        auto t = [&]() -> int64_t {
          switch (r.below(8)) {
          case 0: return 0;
          case 6: return r.range(-2, 2);
          case 7: return r.range(earliest, latest) * 1000000000ll + (int64_t)r.below(earliest < -9223372000 ? 145224190 : 1000000000);
          case 1: return -(int64_t)r.below(2000000000ull * 1000000000ull);
          case 2: return (int64_t)r.below(4000000000ull) * 1000000000ll;
          case 3: return r.range(-2000000000, 2000000000);
          case 4: return -(int64_t)r.below(2000000000) * 1000000000ll - (int64_t)(r.chance(50) ? 1 : 999999999);
          default: return (int64_t)r.below(4000000000ull * 1000000000ull);
          }
        };
        const int64_t a = t(), m = t(), c = r.chance(50) ? 0 : t();
        hist += cat("; times(", c, ",", a, ",", m, ")");
        vh::current(hist);
        o->with([&](auto& q) { q.times(asioext::file_times{T(T::duration(c)), T(T::duration(a)), T(T::duration(m))}, ec); });
        VH_CHECK(!ec, "times-fail", hist, " ec=", text(ec));
        auto split = [](int64_t v, struct timespec& ts) { if (!v) return; int64_t s = v / 1000000000, n = v % 1000000000; if (n < 0) { n += 1000000000; --s; } ts.tv_sec = s; ts.tv_nsec = n; };
        split(a, ma); split(m, mm);
        raw::stat(path.c_str(), &st);
        VH_CHECK(st.st_atim.tv_sec == ma.tv_sec && st.st_atim.tv_nsec == ma.tv_nsec, "atime-wrong", hist, " now ", st.st_atim.tv_sec, ".", st.st_atim.tv_nsec, " want ", ma.tv_sec, ".", ma.tv_nsec);
        VH_CHECK(st.st_mtim.tv_sec == mm.tv_sec && st.st_mtim.tv_nsec == mm.tv_nsec, "mtime-wrong", hist, " now ", st.st_mtim.tv_sec, ".", st.st_mtim.tv_nsec, " want ", mm.tv_sec, ".", mm.tv_nsec);
        vh::count("times-set");
        if (a < 0 || m < 0) vh::count("times-before-1970");
      } else if (op == 4) {
        raw::stat(path.c_str(), &st);
        const asioext::file_times g = o->with([&](auto& q) { return q.times(ec); });
        const int64_t a = st.st_atim.tv_sec * 1000000000ll + st.st_atim.tv_nsec, m = st.st_mtim.tv_sec * 1000000000ll + st.st_mtim.tv_nsec;
        VH_CHECK(!ec && g.atime.time_since_epoch().count() == a && g.mtime.time_since_epoch().count() == m, "times-query", hist, " got ", g.atime.time_since_epoch().count(), ",", g.mtime.time_since_epoch().count(), " want ", a, ",", m, " ec=", text(ec));
        VH_CHECK(g.ctime == T(), "creation-time-invented", hist);
        vh::count("times-query");
      } else {
        // a handle that cannot work leaves everything alone
        asioext::file_handle bad(r.chance(50) ? -1 : 987654);
        const unsigned k = (unsigned)r.below(4);
        ec = EC();
        if (k == 0) bad.permissions(P::all, O::replace, ec);
        if (k == 1) bad.permissions(P::all, O::add, ec);
        if (k == 2) bad.times(asioext::file_times{T(), T(T::duration(r.chance(50) ? 7 : 0)), T(T::duration(9))}, ec);
        if (k == 3) { asioext::file_times t = bad.times(ec); VH_CHECK(t == asioext::file_times(), "times-invented", hist); }
        VH_CHECK(is_sys(ec, EBADF), "bad-handle-accepted", hist, " ec=", text(ec));
        raw::stat(path.c_str(), &st);
        VH_CHECK((st.st_mode & 0777) == (mode_t)model, "bad-handle-has-effect", hist);
        // attributes are unsupported here: they never fail and never change anything
        EC e2 = asio::error::already_open;
        o->with([&](auto& q) { q.attributes(asioext::file_attrs::hidden, e2); });
        const asioext::file_attrs at = o->with([&](auto& q) { return q.attributes(e2); });
        VH_CHECK(at == asioext::file_attrs::none || !e2, "attributes", hist);
        flag_algebra<P>(r, 0777, "file_perms");
        flag_algebra<asioext::file_attrs>(r, 0x3ffff, "file_attrs");
        flag_algebra<O>(r, 7, "file_perm_options");
        flag_algebra<asioext::file_attr_options>(r, 7, "file_attr_options");
        flag_algebra<asioext::open_flags>(r, 0x3fff, "open_flags");
        // equality of times looks at each of the three
        asioext::file_times x, y;
        T* px[] = {&x.ctime, &x.atime, &x.mtime}; T* py[] = {&y.ctime, &y.atime, &y.mtime};
        bool same = true;
        for (int j = 0; j < 3; ++j) {
          const int64_t u = r.range(-3, 3), v = r.chance(70) ? u : r.range(-3, 3);
          *px[j] = T(T::duration(u)); *py[j] = T(T::duration(v)); same = same && u == v;
        }
        VH_CHECK((x == y) == same && (x != y) == !same, "times-equality", hist);
        vh::count("bad-handles");
      }
    }
    raw::stat(other.c_str(), &st);
    VH_CHECK((st.st_mode & 0777) == 0604, "other-file-touched", hist);
    std::string c;
    raw::get(path, c);
    VH_CHECK(c == "contents", "content-touched", hist);
    vh::distinct(vh::hash_str(hist));
    static int shown = 0;
    if (shown++ < 2) vh::sample(hist);
  });
}

VH_MAIN
