// The three kinds of synchronous file object behind one interface.
#ifndef VH_HANDLES_HPP
#define VH_HANDLES_HPP
#include "sys.hpp"
#include <asioext/file.hpp>
#include <asioext/file_handle.hpp>
#include <asioext/unique_file_handle.hpp>
#include <asioext/open.hpp>
#include <asioext/duplicate.hpp>
#include <asio.hpp>
#include <chrono>
#include <memory>

typedef asioext::open_flags OF;
typedef asioext::error_code EC;

inline asio::io_context& ioc() { static asio::io_context* c = new asio::io_context; return *c; }

// Starts whatever the file service keeps running (a starting thread has descriptors of its own for a moment) and
// waits until the descriptor table is still.
inline void warm_up()
{
  static asioext::file* f = new asioext::file(ioc());
  const std::string p = vh::scratch() + "/warm";
  sys::raw::put(p, "warm");
  try {
    char c[4];
    EC ec;
    f->open(p.c_str(), OF::access_read | OF::open_existing, ec);
    if (!ec) {
      f->async_read_some(asio::buffer(c), [](EC, std::size_t) {});
      ioc().run_for(std::chrono::seconds(5));
      ioc().restart();
      f->close(ec);
    }
  } catch (...) {}
  std::set<int> last = sys::raw::fds();
  for (int same = 0, i = 0; same < 20 && i < 400; ++i) {
    ::usleep(3000);
    std::set<int> now = sys::raw::fds();
    same = now == last ? same + 1 : 0;
    last = now;
  }
}

// The descriptor table, given time to become the expected one (threads which start or end use descriptors for a moment).
inline std::set<int> fds_settled(const std::set<int>& expected)
{
  std::set<int> now = sys::raw::fds();
  static int patience = 60;
  for (int i = 0; now != expected && patience > 0 && i < 20; ++i) {
    if (i == 19) --patience;
    ::usleep(5000);
    now = sys::raw::fds();
  }
  return now;
}

struct Obj
{
  int kind = 0; // 0 file_handle, 1 unique_file_handle, 2 file
  asioext::file_handle p;
  asioext::unique_file_handle u;
  std::unique_ptr<asioext::file> f;

  // takes ownership of fd
  static std::unique_ptr<Obj> make(int kind, int fd)
  {
    std::unique_ptr<Obj> o(new Obj);
    o->kind = kind;
    if (kind == 0) o->p = asioext::file_handle(fd);
    else if (kind == 1) o->u = asioext::unique_file_handle(asioext::file_handle(fd));
    else o->f.reset(new asioext::file(ioc(), asioext::file_handle(fd)));
    return o;
  }
  template <class F> auto with(F&& fn)
  {
    if (kind == 0) return fn(p);
    if (kind == 1) return fn(u);
    return fn(*f);
  }
  int fd()
  {
    if (kind == 0) return p.native_handle();
    if (kind == 1) return u.get().native_handle();
    return f->native_handle();
  }
  ~Obj() { if (kind == 0) { EC ec; p.close(ec); } }
};

inline const char* kind_name(int k) { static const char* n[] = {"file_handle", "unique_file_handle", "file"}; return n[k]; }
inline bool is_sys(const EC& ec, int e) { return ec.value() == e && (ec.category() == asio::error::get_system_category() || ec.category() == asioext::generic_category()); }
inline std::string text(const EC& ec) { return vh::cat(ec.category().name(), ":", ec.value()); }

// A scatter/gather list inside one arena with guard bytes around every piece.
struct Pieces
{
  std::vector<char> arena;
  std::vector<std::pair<std::size_t, std::size_t>> p; // offset, length
  char guard;
  Pieces(vh::Rng& r, std::size_t count, std::size_t maxlen, char g) : guard(g)
  {
    std::size_t o = 3;
    for (std::size_t i = 0; i < count; ++i) {
      std::size_t n = r.chance(15) ? 0 : r.size(maxlen);
      p.push_back({o, n});
      o += n + 1 + r.below(4);
    }
    arena.assign(o + 3, g);
  }
  std::size_t total() const { std::size_t t = 0; for (auto& x : p) t += x.second; return t; }
  std::string gather() const { std::string s; for (auto& x : p) s.append(arena.data() + x.first, x.second); return s; }
  void fill(const std::string& s) { std::size_t d = 0; for (auto& x : p) { std::memcpy(arena.data() + x.first, s.data() + d, x.second); d += x.second; } }
  bool guards_ok() const
  {
    std::vector<char> m(arena.size(), 1);
    for (auto& x : p) std::fill(m.begin() + x.first, m.begin() + x.first + x.second, 0);
    for (std::size_t i = 0; i < m.size(); ++i) if (m[i] && arena[i] != guard) return false;
    return true;
  }
  std::vector<asio::mutable_buffer> mut() { std::vector<asio::mutable_buffer> v; for (auto& x : p) v.push_back(asio::buffer(arena.data() + x.first, x.second)); return v; }
  std::vector<asio::const_buffer> con() const { std::vector<asio::const_buffer> v; for (auto& x : p) v.push_back(asio::buffer((const char*)arena.data() + x.first, x.second)); return v; }
  std::string shape() const { std::string s = "["; for (std::size_t i = 0; i < p.size() && i < 12; ++i) s += vh::cat(i ? "," : "", p[i].second); return s + (p.size() > 12 ? vh::cat("...", p.size(), "]") : std::string("]")); }
};
#endif
