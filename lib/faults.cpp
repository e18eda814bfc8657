// Preloaded: counts the allocations of the extension (operator new, and malloc called by it) and lets the check decide which of
// them fail.
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <new>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);

#define SHOWN __attribute__((visibility("default")))
// where the extension and libstdc++ are
SHOWN unsigned long hlf_range[4];
// 1: count; allocations seen; the first to fail (0: none); whether those after it fail, too; how many failed; blocks held
SHOWN int hlf_armed = 0;
SHOWN long long hlf_seen = 0, hlf_at = 0, hlf_always = 0, hlf_failed = 0, hlf_held = 0;
// what was allocated where: caller and size of each allocation seen
SHOWN unsigned long hlf_trace[2 * 200000];
// functions of the extension whose allocations never fail: from, to, in order
SHOWN unsigned long hlf_skip[2 * 20000];
SHOWN int hlf_nskip = 0;
}

static bool inside(const void* caller, bool cxx)
{
  const unsigned long c = (unsigned long)caller;
  return (c >= hlf_range[0] && c < hlf_range[1]) || (cxx && c >= hlf_range[2] && c < hlf_range[3]);
}

static bool skipped(const void* caller)
{
  const unsigned long c = (unsigned long)caller;
  int a = 0, b = hlf_nskip;
  while (a < b)
  {
    const int m = (a + b) / 2;
    if (hlf_skip[2 * m + 1] <= c) a = m + 1; else b = m;
  }
  return a < hlf_nskip && hlf_skip[2 * a] <= c;
}

static bool fails(const void* caller, bool cxx, size_t n)
{
  if (!hlf_armed || !inside(caller, cxx) || skipped(caller)) return false;
  if (hlf_seen < 200000)
  {
    hlf_trace[2 * hlf_seen] = (unsigned long)caller;
    hlf_trace[2 * hlf_seen + 1] = n;
  }
  ++hlf_seen;
  if (!hlf_at || hlf_seen < hlf_at || (hlf_seen > hlf_at && !hlf_always)) return false;
  ++hlf_failed;
  return true;
}

// the blocks the extension got from malloc
static void* mine[4096];
static size_t nmine = 0;

static void* note(void* p, const void* caller)
{
  if (p && hlf_range[1] && inside(caller, false) && nmine < sizeof mine / sizeof *mine)
  {
    mine[nmine++] = p;
    ++hlf_held;
  }
  return p;
}

static void forget(void* p)
{
  for (size_t i = nmine; i-- > 0;)
    if (mine[i] == p)
    {
      mine[i] = mine[--nmine];
      --hlf_held;
      return;
    }
}

#define CALLER __builtin_return_address(0)

extern "C" {
SHOWN void* malloc(size_t n)
{
  if (fails(CALLER, false, n)) { errno = ENOMEM; return NULL; }
  return note(__libc_malloc(n), CALLER);
}
SHOWN void* calloc(size_t n, size_t m)
{
  if (fails(CALLER, false, n * m)) { errno = ENOMEM; return NULL; }
  return note(__libc_calloc(n, m), CALLER);
}
SHOWN void* realloc(void* p, size_t n)
{
  if (fails(CALLER, false, n)) { errno = ENOMEM; return NULL; }
  if (nmine) forget(p);
  return note(__libc_realloc(p, n), CALLER);
}
SHOWN void free(void* p)
{
  if (nmine && p) forget(p);
  __libc_free(p);
}
}

static void* get(size_t n, const void* caller, size_t align = 0)
{
  if (fails(caller, true, n)) return NULL;
  void* p = NULL;
  if (align) { if (posix_memalign(&p, align < sizeof p ? sizeof p : align, n ? n : 1)) p = NULL; }
  else p = __libc_malloc(n ? n : 1);
  if (p) ++hlf_held;
  return p;
}

static void put(void* p)
{
  if (!p) return;
  --hlf_held;
  __libc_free(p);
}

static void* must(void* p)
{
  if (!p) throw std::bad_alloc();
  return p;
}

void* operator new(size_t n) { return must(get(n, CALLER)); }
void* operator new[](size_t n) { return must(get(n, CALLER)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, CALLER); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, CALLER); }
void* operator new(size_t n, std::align_val_t a) { return must(get(n, CALLER, (size_t)a)); }
void* operator new[](size_t n, std::align_val_t a) { return must(get(n, CALLER, (size_t)a)); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, CALLER, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, CALLER, (size_t)a); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
