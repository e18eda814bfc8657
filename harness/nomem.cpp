// Arrays and generators when memory runs out: in every sequence of operations, each allocation of the last one fails (and those
// after it). Then everything must still be there to be used and destroyed. One group per compilation (-DGROUP=n); compiled with
// malloc and free renamed. Prints "COUNT name n" and "FAIL text" lines.
#include "NDArrayUtils.h"
#include "Sobol.h"

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>

extern "C" void* real_malloc(size_t) asm("malloc");
extern "C" void real_free(void*) asm("free");

static bool armed = false, always = false;
static long seen = 0, at = 0, failed = 0, held = 0;

static bool fails()
{
  if (!armed) return false;
  ++seen;
  if (seen < at || (seen > at && !always)) return false;
  ++failed;
  return true;
}

static void* get(size_t n)
{
  if (fails()) return NULL;
  ++held;
  return real_malloc(n ? n : 1);
}

static void put(void* p)
{
  if (!p) return;
  --held;
  real_free(p);
}

extern "C" void* hl_malloc(size_t n) noexcept { return get(n); }
extern "C" void* hl_calloc(size_t n, size_t m) noexcept { void* p = get(n * m); if (p) memset(p, 0, n * m); return p; }
extern "C" void hl_free(void* p) noexcept { put(p); }
void* operator new(size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }

typedef std::vector<int64_t> V;
typedef NDArray<int64_t> A;

static uint64_t cases = 0, steps = 0;
static int fails_ = 0;
static std::string text;

static void fail(const std::string& s)
{
  if (++fails_ <= 5)
    printf("FAIL %s: %s\n", text.c_str(), s.c_str());
}

#define EXPECT(cond, what) do { ++steps; if (!(cond)) fail(what); } while (0)

// f with the at-th allocation failing: whether it threw
template<typename F> static bool attempt(F f)
{
  seen = failed = 0;
  armed = true;
  try { f(); armed = false; return false; }
  catch (const std::bad_alloc&) { armed = false; return true; }
  catch (...) { armed = false; fail("threw something else than bad_alloc"); return true; }
}

#if GROUP == 1

static const std::vector<V> shapes = { {2}, {5}, {3, 2}, {2, 2, 2}, {1, 1, 1, 1, 1, 1} };

struct World { std::unique_ptr<A> a[2]; std::unique_ptr<int64_t[]> storage; };

static bool same(const std::vector<int64_t>& x, const A& a)
{
  if (x.size() != a.storageSize()) return false;
  for (size_t i = 0; i < x.size(); ++i) if (a.rawData()[i] != x[i]) return false;
  return true;
}

static void fill(A& a, int64_t from)
{
  if (!a.dim()) return;
  for (Index i(a.sizes()); !i.end(); ++i) a[i] = from++;
}

static void verify(World& w)
{
  for (int s = 0; s < 2; ++s)
    if (w.a[s] && w.a[s]->dim())
    {
      A& a = *w.a[s];
      size_t n = 1;
      for (int64_t k: a.sizes()) n *= k;
      EXPECT(n == a.storageSize() && a.dim() == a.sizes().size(), "the sizes of an array do not agree");
      if (n != a.storageSize()) return;
      fill(a, 1000);
      int64_t e = 1000, wrong = 0;
      for (Index i(a.sizes()); !i.end(); ++i) wrong += a[i] != e++;
      EXPECT(!wrong, "an array does not hold what was written to it");
    }
}

static const int OPS = 2 * 8 + 2;

// false: not possible here
static bool apply(World& w, int op)
{
  if (op >= 16)
  {
    // move
    const int s = op - 16;
    if (!w.a[s]) return false;
    w.a[1 - s].reset(new A(std::move(*w.a[s])));
    w.a[s].reset();
    return true;
  }
  const int s = op / 8, o = op % 8;
  if (o < 5)
  {
    if (w.a[s]) w.a[s]->resize(shapes[o]);
    else w.a[s].reset(new A(shapes[o]));
    return true;
  }
  if (o == 5)
  {
    if (!w.a[s] || !w.a[1 - s] || !w.a[s]->dim()) return false;
    A::copy(*w.a[s], *w.a[1 - s]);
    return true;
  }
  if (o == 6)
  {
    if (w.a[s]) return false;
    w.a[s].reset(new A());
    return true;
  }
  if (!w.a[s]) return false;
  w.a[s].reset();
  return true;
}

static void group()
{
  const int depth = atoi(getenv("DEPTH") ? getenv("DEPTH") : "3");
  std::vector<int> seq(depth, 0);
  for (;;)
  {
    int bad = -1;
    for (int mode = 0; mode < 2 && bad < 0; ++mode)
      for (at = 1; bad < 0; ++at)
      {
        always = mode;
        std::ostringstream t;
        t << "operations";
        for (int k: seq) t << " " << k;
        t << ", allocation " << at << (mode ? " and all later ones" : "");
        text = t.str();
        const long before = held;
        bool reached = false;
        {
          World w;
          for (int k = 0; k < depth - 1; ++k)
            if (!apply(w, seq[k])) { bad = k; break; }
          if (bad >= 0) break;
          for (int s = 0; s < 2; ++s) if (w.a[s]) fill(*w.a[s], 100 * (s + 1));
          std::vector<int64_t> content[2];
          for (int s = 0; s < 2; ++s)
            if (w.a[s] && w.a[s]->dim()) content[s].assign(w.a[s]->rawData(), w.a[s]->rawData() + w.a[s]->storageSize());
          const int op = seq[depth - 1];
          bool possible = true;
          const bool threw = attempt([&]() { possible = apply(w, op); });
          if (!possible) { bad = depth - 1; break; }
          reached = failed > 0;
          if (threw)
          {
            EXPECT(reached, "threw though no allocation failed");
            // the array that is not to be changed is as it was
            const int other = op >= 16 ? op - 16 : (op % 8 == 5 ? op / 8 : 1 - op / 8);
            if (w.a[other] && w.a[other]->dim())
              EXPECT(same(content[other], *w.a[other]), "another array was changed");
          }
          verify(w);
          // everything can be used again
          for (int s = 0; s < 2; ++s)
            for (int k = 0; k < 5; ++k)
            {
              apply(w, 8 * s + (k + s + 2) % 5);
              verify(w);
            }
          ++cases;
        }
        EXPECT(held == before, "memory was not given back");
        if (!reached) break;
      }
    int k = bad >= 0 ? bad : depth - 1;
    for (int j = k + 1; j < depth; ++j) seq[j] = 0;
    while (k >= 0 && seq[k] == OPS - 1) seq[k--] = 0;
    if (k < 0) break;
    ++seq[k];
  }
}

#elif GROUP == 2

static void group()
{
  for (size_t dim: { 1, 2, 3, 40, 1111 })
    for (int op = 0; op < 4; ++op)
      for (int mode = 0; mode < 2; ++mode)
        for (at = 1; ; ++at)
        {
          always = mode;
          std::ostringstream t;
          t << "generator of " << dim << " dimensions, operation " << op << ", allocation " << at << (mode ? " and all later ones" : "");
          text = t.str();
          const long before = held;
          bool reached;
          {
            std::unique_ptr<Sobol> g;
            if (op) g.reset(new Sobol(dim));
            if (op == 2) for (int k = 0; k < 5; ++k) g->buf();
            const bool threw = attempt([&]() {
              if (op == 0) g.reset(new Sobol(dim, 3));
              else if (op == 3) g->buf();
              else g->reset(op == 1 ? 0 : 7);
            });
            reached = failed > 0;
            EXPECT(!threw || reached, "threw though no allocation failed");
            if (g)
            {
              // it can be used (the first coordinate of a point is never that of another)
              const uint32_t x = g->buf()[0];
              const uint32_t y = g->buf()[0];
              EXPECT(x != y, "the generator repeats itself");
              g->reset();
              EXPECT(g->buf()[0] == 1u << 31, "the generator does not start again");
            }
            ++cases;
          }
          EXPECT(held == before, "memory was not given back");
          if (!reached) break;
        }
}

#elif GROUP == 3

static void one(int op, const A& x, const A& y)
{
  const std::vector<std::pair<int64_t, int64_t>> fixed = { {1, 0} };
  switch (op)
  {
  case 0: { A r = reduce(x, V{2, 0}); break; }
  case 1: { A r = slice(x, std::pair<int64_t, int64_t>(1, 1)); break; }
  case 2: { std::vector<int64_t> r = reduce(x, 1); break; }
  case 3: { Index i(x.sizes()); MappedIndex m(i, V{1, 2}); for (; !m.end(); ++m) y.sizes(); break; }
  case 4: { std::vector<std::vector<int>> r = listify<int64_t>(sum(x), x); break; }
  case 5: { NDArray<double> r(y.sizes()); diff(x, y, r); break; }
  case 6: { A r(x.sizes()); A s(std::move(r)); A::copy(x, s); break; }
  }
}

static void group()
{
  A x(V{2, 3, 2}), y(V{2, 3, 2});
  int64_t n = 0;
  for (Index i(x.sizes()); !i.end(); ++i) { x[i] = ++n % 4; y[i] = n % 3; }
  for (int op = 0; op < 7; ++op)
    for (int mode = 0; mode < 2; ++mode)
      for (at = 1; ; ++at)
      {
        always = mode;
        std::ostringstream t;
        t << "function " << op << ", allocation " << at << (mode ? " and all later ones" : "");
        text = t.str();
        const long before = held;
        attempt([&]() { one(op, x, y); });
        EXPECT(held == before, "memory was not given back");
        ++cases;
        if (!failed) break;
      }
}

#endif

int main()
{
  group();
  printf("COUNT cases %llu\nCOUNT steps %llu\n", (unsigned long long)cases, (unsigned long long)steps);
  printf("DONE\n");
  return fails_ ? 1 : 0;
}
