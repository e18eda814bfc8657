// Preloaded: counts what operator new has handed out and operator delete has not been given back; and decides what
// the memory handed out, and the stack below the caller, contain.
#include <cstdlib>
#include <cstring>
#include <new>
#include <malloc.h>

extern "C" {
__attribute__((visibility("default"))) long long hlnew_bytes = 0, hlnew_blocks = 0;
// what blocks are filled with when they are handed out and given back; none if negative
__attribute__((visibility("default"))) int hlnew_fill = -1;
// for R's .C(): bytes and blocks, and bytes malloc has handed out
__attribute__((visibility("default"))) void hlnew_get(double* out)
{
  const struct mallinfo2 m = mallinfo2();
  out[0] = (double)hlnew_bytes;
  out[1] = (double)hlnew_blocks;
  out[2] = (double)(m.uordblks + m.hblkhd);
}
__attribute__((visibility("default"), noinline)) void hlnew_stack(int byte)
{
  char room[200000];
  memset(room, byte, sizeof room);
  asm volatile("" :: "r"(room) : "memory");
}
}

static void* get(size_t n, size_t align = 0)
{
  void* const p = align ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (p)
  {
    __atomic_add_fetch(&hlnew_bytes, (long long)malloc_usable_size(p), __ATOMIC_RELAXED);
    __atomic_add_fetch(&hlnew_blocks, 1, __ATOMIC_RELAXED);
    if (hlnew_fill >= 0) memset(p, hlnew_fill, n);
  }
  return p;
}

static void put(void* p)
{
  if (!p) return;
  __atomic_sub_fetch(&hlnew_bytes, (long long)malloc_usable_size(p), __ATOMIC_RELAXED);
  __atomic_sub_fetch(&hlnew_blocks, 1, __ATOMIC_RELAXED);
  if (hlnew_fill >= 0) memset(p, hlnew_fill, malloc_usable_size(p));
  free(p);
}

static void* must(void* p)
{
  if (!p) throw std::bad_alloc();
  return p;
}

void* operator new(size_t n) { return must(get(n)); }
void* operator new[](size_t n) { return must(get(n)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new(size_t n, std::align_val_t a) { return must(get(n, (size_t)a)); }
void* operator new[](size_t n, std::align_val_t a) { return must(get(n, (size_t)a)); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, (size_t)a); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
