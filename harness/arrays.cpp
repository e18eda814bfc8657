// Exhaustive checks of the array primitives against plain arithmetic on positions. One group per compilation (-DGROUP=n),
// so that a change of one interface does not silence the others. Prints "COUNT name n" and "FAIL text" lines.
#include "NDArrayUtils.h"

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

typedef std::vector<int64_t> V;

static uint64_t cases = 0, steps = 0;
static int fails = 0;

template<typename T>
static std::string str(const std::vector<T>& v)
{
  std::ostringstream s;
  s << "[";
  for (size_t i = 0; i < v.size(); ++i)
    s << (i ? " " : "") << v[i];
  return s.str() + "]";
}

static void fail(const std::string& s)
{
  if (++fails <= 5)
    printf("FAIL %s\n", s.c_str());
}

#define EXPECT(cond, text) do { ++steps; if (!(cond)) { std::ostringstream o_; o_ << text; fail(o_.str()); } } while (0)

static int64_t volume(const V& shape)
{
  int64_t n = 1;
  for (int64_t s: shape) n *= s;
  return n;
}

// the n-th position of a shape, last dimension fastest
static V unravel(int64_t n, const V& shape)
{
  V p(shape.size());
  for (size_t d = shape.size(); d-- > 0;)
  {
    p[d] = n % shape[d];
    n /= shape[d];
  }
  return p;
}

static int64_t ravel(const V& p, const V& shape)
{
  int64_t n = 0;
  for (size_t d = 0; d < shape.size(); ++d)
    n = n * shape[d] + p[d];
  return n;
}

// all shapes of up to maxdim dimensions of size 1..maxsize, and some longer ones
static std::vector<V> shapes(size_t maxdim, int64_t maxsize)
{
  std::vector<V> out;
  for (size_t d = 1; d <= maxdim; ++d)
  {
    V s(d, 1);
    for (;;)
    {
      out.push_back(s);
      size_t k = d;
      while (k > 0 && s[k-1] == maxsize) s[--k] = 1;
      if (k == 0) break;
      ++s[k-1];
    }
  }
  for (const V& v: {V{7}, V{300}, V{70000}, V{5, 7}, V{7, 5}, V{1, 9, 1}, V{300, 2}, V{2, 300}, V{6, 5, 4}, V{2, 2, 2, 2, 2, 2}, V{1, 2, 1, 3, 1, 2}})
    out.push_back(v);
  return out;
}

// all ordered selections of distinct numbers below n, at least lo long
static void selections(size_t n, size_t lo, size_t hi, V& cur, std::vector<V>& out)
{
  if (cur.size() >= lo && cur.size() <= hi) out.push_back(cur);
  if (cur.size() == hi) return;
  for (size_t d = 0; d < n; ++d)
  {
    bool used = false;
    for (int64_t c: cur) used |= c == (int64_t)d;
    if (used) continue;
    cur.push_back(d);
    selections(n, lo, hi, cur, out);
    cur.pop_back();
  }
}

static std::vector<V> selections(size_t n, size_t lo, size_t hi)
{
  std::vector<V> out;
  V cur;
  selections(n, lo, hi, cur, out);
  return out;
}

static V pick(const V& shape, const V& dims)
{
  V r;
  for (int64_t d: dims) r.push_back(shape[d]);
  return r;
}

#if GROUP == 1

// ------------------------------------------------------------ Index, TransposedIndex

template<typename I>
void iterate(const V& shape, bool transposed)
{
  const int64_t n = volume(shape);
  const V rev(shape.rbegin(), shape.rend());
  auto at = [&](int64_t k) {
    V p = unravel(k, transposed ? rev : shape);
    return transposed ? V(p.rbegin(), p.rend()) : p;
  };
  I i(shape);
  for (int round = 0; round < 3; ++round)
  {
    EXPECT(i.size() == shape.size() && i.sizes() == shape, "index of " << str(shape) << ": sizes");
    // the second round is broken off
    const int64_t stop = round == 1 ? n / 2 : n;
    for (int64_t k = 0; k < stop; ++k)
    {
      const V& v = i;
      EXPECT(!i.end(), "index of " << str(shape) << " ends at step " << k);
      EXPECT(v == at(k), "index of " << str(shape) << " step " << k << ": " << str(v) << ", should be " << str(at(k)));
      for (size_t d = 0; d < shape.size(); ++d)
      {
        const I& c = i;
        EXPECT(i[d] == v[d] && c[d] == v[d], "index of " << str(shape) << ": element " << d);
      }
      ++i;
    }
    if (round != 1)
      EXPECT(i.end(), "index of " << str(shape) << " does not end");
    i.reset();
    EXPECT(!i.end() && (const V&)i == V(shape.size(), 0), "index of " << str(shape) << ": reset");
  }
  // moved to any position, it goes on from there
  for (int64_t k = 0; k < n && n < 1000; ++k)
  {
    I j(shape);
    const V p = at(k);
    for (size_t d = 0; d < shape.size(); ++d) j[d] = p[d];
    const V& v = ++j;
    EXPECT(k + 1 < n ? !j.end() && v == at(k + 1) : j.end(), "index of " << str(shape) << " after " << str(p) << ": " << str(v));
  }
  ++cases;
}

static void group()
{
  for (const V& s: shapes(5, 3))
  {
    iterate<Index>(s, false);
    iterate<TransposedIndex>(s, true);
  }
}

#elif GROUP == 2

// ------------------------------------------------------------ MappedIndex

static void group()
{
  for (const V& shape: shapes(4, 3))
  {
    if (volume(shape) > 5000) continue;
    const size_t D = shape.size();
    for (const V& dims: selections(D, 0, D > 5 ? 3 : D))
    {
      ++cases;
      const V sub = pick(shape, dims);
      // as a view
      {
        Index main(shape);
        MappedIndex m(main, dims);
        for (int64_t k = 0; !main.end() && k < 10000; ++main, ++k)
        {
          const std::vector<int64_t*>& ptr = m;
          EXPECT(ptr.size() == dims.size(), "mapped " << str(shape) << str(dims) << ": size");
          for (size_t d = 0; d < dims.size(); ++d)
            EXPECT(m[d] == main[dims[d]] && *ptr[d] == main[dims[d]], "mapped " << str(shape) << str(dims) << " at " << str((const V&)main));
        }
        EXPECT(main.end(), "an index that is mapped does not end");
      }
      // as an iterator over the mapped dimensions, the others staying where they are
      const int64_t n = volume(sub);
      for (int64_t other = 0; other < volume(shape); ++other)
      {
        const V start = unravel(other, shape);
        bool zero = true;
        for (int64_t d: dims) zero = zero && start[d] == 0;
        if (!zero) continue;
        Index main(shape);
        for (size_t d = 0; d < D; ++d) main[d] = start[d];
        MappedIndex m(main, dims);
        int64_t k = 0;
        for (; !m.end() && k <= n; ++m, ++k)
        {
          V want = start;
          const V p = unravel(k, sub);
          for (size_t d = 0; d < dims.size(); ++d) want[dims[d]] = p[d];
          EXPECT((const V&)main == want, "mapped " << str(shape) << str(dims) << " from " << str(start) << " step " << k << ": " << str((const V&)main) << ", should be " << str(want));
        }
        EXPECT(k == n, "mapped " << str(shape) << str(dims) << ": " << k << " steps, should be " << n);
        EXPECT((const V&)main == start, "mapped " << str(shape) << str(dims) << ": ends at " << str((const V&)main));
      }
      // values written through it
      {
        Index main(shape);
        MappedIndex m(main, dims);
        for (size_t d = 0; d < dims.size(); ++d)
        {
          m[d] = sub[d] - 1;
          EXPECT(main[dims[d]] == sub[d] - 1, "mapped " << str(shape) << str(dims) << ": written");
        }
      }
    }
  }
}

#elif GROUP == 3

// ------------------------------------------------------------ FixedIndex

static void group()
{
  for (const V& shape: shapes(4, 3))
  {
    if (volume(shape) > 200) continue;
    const size_t D = shape.size();
    for (const V& dims: selections(D, 0, D > 5 ? 3 : D))
    {
      const V sub = pick(shape, dims);
      V freeDims;
      for (size_t d = 0; d < D; ++d)
        if (std::count(dims.begin(), dims.end(), (int64_t)d) == 0) freeDims.push_back(d);
      const V freeShape = pick(shape, freeDims);
      for (int64_t f = 0; f < volume(sub); ++f)
      {
        ++cases;
        const V at = unravel(f, sub);
        std::vector<std::pair<int64_t, int64_t>> fixed;
        for (size_t d = 0; d < dims.size(); ++d) fixed.push_back({dims[d], at[d]});
        FixedIndex i(shape, fixed);
        EXPECT(i.sizes() == freeShape, "fixed " << str(shape) << str(dims) << ": free sizes " << str(i.sizes()));
        const int64_t n = volume(freeShape);
        int64_t k = 0;
        for (; !i.end() && k <= n; ++i, ++k)
        {
          V want(D);
          const V p = unravel(k, freeShape);
          for (size_t d = 0; d < dims.size(); ++d) want[dims[d]] = at[d];
          for (size_t d = 0; d < freeDims.size(); ++d) want[freeDims[d]] = p[d];
          const Index& full = i;
          EXPECT((const V&)full == want, "fixed " << str(shape) << str(dims) << "=" << str(at) << " step " << k << ": " << str((const V&)full) << ", should be " << str(want));
          for (size_t d = 0; d < freeDims.size(); ++d)
            EXPECT(i[d] == p[d] && *i.free()[d] == p[d], "fixed " << str(shape) << str(dims) << ": free element");
        }
        EXPECT(k == n, "fixed " << str(shape) << str(dims) << ": " << k << " steps, should be " << n);
      }
    }
  }
}

#elif GROUP == 4

// ------------------------------------------------------------ reduce, slice

template<typename T>
static void fill(NDArray<T>& a, uint64_t seed)
{
  uint64_t x = 88172645463325252ull + seed;
  for (T* p = a.begin(); p != a.end(); ++p)
  {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    *p = (T)(x % 1000) - 300;
  }
}

template<typename T>
static void utils(const V& shape)
{
  const size_t D = shape.size();
  const int64_t n = volume(shape);
  NDArray<T> a(shape);
  fill(a, n);
  const std::vector<T> before(a.begin(), a.end());
  for (size_t d = 0; d < D; ++d)
  {
    std::vector<T> want(shape[d], T(0));
    for (int64_t k = 0; k < n; ++k) want[unravel(k, shape)[d]] += before[k];
    EXPECT(reduce(a, d) == want, "reduce " << str(shape) << " to " << d << ": " << str(reduce(a, d)) << ", should be " << str(want));
    ++cases;
  }
  bool threw = false;
  try { reduce(a, D); } catch (const std::exception&) { threw = true; }
  EXPECT(threw, "reduce " << str(shape) << " to dimension " << D << " is accepted");
  for (const V& dims: selections(D, 1, D > 5 ? 3 : D))
  {
    const V sub = pick(shape, dims);
    std::vector<T> want(volume(sub), T(0));
    for (int64_t k = 0; k < n; ++k) want[ravel(pick(unravel(k, shape), dims), sub)] += before[k];
    const NDArray<T> r = reduce(a, dims);
    EXPECT(r.sizes() == sub && std::vector<T>(r.begin(), r.end()) == want, "reduce " << str(shape) << " to " << str(dims));
    ++cases;
  }
  for (const V& dims: selections(D, 0, D > 5 ? 3 : D - 1))
  {
    const V sub = pick(shape, dims);
    V freeDims;
    for (size_t d = 0; d < D; ++d)
      if (std::count(dims.begin(), dims.end(), (int64_t)d) == 0) freeDims.push_back(d);
    const V freeShape = pick(shape, freeDims);
    for (int64_t f = 0; f < volume(sub); ++f)
    {
      const V at = unravel(f, sub);
      std::vector<std::pair<int64_t, int64_t>> fixed;
      for (size_t d = 0; d < dims.size(); ++d) fixed.push_back({dims[d], at[d]});
      std::vector<T> want(volume(freeShape));
      for (int64_t k = 0; k < n; ++k)
      {
        const V p = unravel(k, shape);
        if (pick(p, dims) == at) want[ravel(pick(p, freeDims), freeShape)] = before[k];
      }
      const NDArray<T> s = slice(a, fixed);
      EXPECT(s.sizes() == freeShape && std::vector<T>(s.begin(), s.end()) == want, "slice " << str(shape) << " at " << str(dims) << "=" << str(at));
      EXPECT(s.rawData() != a.rawData(), "slice " << str(shape) << " shares storage");
      if (dims.size() == 1)
      {
        const NDArray<T> s1 = slice(a, fixed[0]);
        EXPECT(s1.sizes() == freeShape && std::vector<T>(s1.begin(), s1.end()) == want, "slice " << str(shape) << " at one position");
      }
      ++cases;
    }
    // out of range, in any of the dimensions
    for (size_t d = 0; d < dims.size(); ++d)
    {
      for (int what = 0; what < 5; ++what)
      {
        std::vector<std::pair<int64_t, int64_t>> fixed;
        for (size_t e = 0; e < dims.size(); ++e) fixed.push_back({dims[e], 0});
        if (what == 0) fixed[d].second = shape[dims[d]];
        if (what == 1) fixed[d].first = D;
        if (what == 2) fixed[d].first = -1;
        if (what == 3) fixed[d].second = -1;
        if (what == 4) fixed[d].second = -2;
        bool refused = false;
        try { slice(a, fixed); } catch (const std::exception&) { refused = true; }
        EXPECT(refused, "slice " << str(shape) << " at " << fixed[d].first << "=" << fixed[d].second << " is accepted");
      }
    }
  }
  EXPECT(std::vector<T>(a.begin(), a.end()) == before, "the input is changed");
}

static void group()
{
  for (const V& s: shapes(4, 3))
  {
    if (volume(s) > 200) continue;
    utils<int64_t>(s);
    utils<double>(s);
  }
  for (const V& s: shapes(1, 1))
  {
    // the long ones
    NDArray<int64_t> a(s);
    fill(a, 5);
    for (size_t d = 0; d < s.size(); ++d)
    {
      V want(s[d], 0);
      for (int64_t k = 0; k < volume(s); ++k) want[unravel(k, s)[d]] += a.begin()[k];
      EXPECT(reduce(a, d) == want, "reduce " << str(s) << " to " << d);
    }
  }
}

#elif GROUP == 5

// ------------------------------------------------------------ sums, extremes, differences, tables

template<typename T>
static void small(const V& shape, const std::vector<T>& v)
{
  NDArray<T> a(shape);
  std::copy(v.begin(), v.end(), a.begin());
  T s = 0, lo = v[0], hi = v[0];
  for (T x: v) { s += x; lo = std::min(lo, x); hi = std::max(hi, x); }
  EXPECT(sum(a) == s && sum(v) == s, "sum of " << str(v) << ": " << sum(a));
  EXPECT(min(a) == lo, "min of " << str(v) << ": " << min(a));
  EXPECT(max(a) == hi, "max of " << str(v) << ": " << max(a));
  T p = 1;
  bool zero = true;
  for (T x: v) { p *= x; zero = zero && x == 0; }
  EXPECT(product(v) == p, "product of " << str(v));
  EXPECT(isZero(v) == zero, "isZero of " << str(v));
  // differences
  NDArray<T> b(shape);
  for (size_t k = 0; k < v.size(); ++k) b.begin()[k] = v[v.size() - 1 - k];
  NDArray<double> d(shape);
  diff(a, b, d);
  for (size_t k = 0; k < v.size(); ++k) EXPECT(d.begin()[k] == (double)(v[k] - v[v.size() - 1 - k]), "diff of " << str(v));
  // tables
  if (lo >= 0)
  {
    const size_t pop = (size_t)s;
    for (int off: {0, 1, -3})
    {
      const std::vector<std::vector<int>> l = listify(pop, a, off);
      EXPECT(l.size() == shape.size(), "listify of " << str(v) << ": columns");
      std::vector<T> back(v.size(), T(0));
      for (size_t i = 0; i < pop; ++i)
      {
        V q;
        bool good = true;
        for (size_t c = 0; c < shape.size(); ++c)
        {
          good = good && l[c].size() == pop && l[c][i] >= off && l[c][i] < off + shape[c];
          if (good) q.push_back(l[c][i] - off);
        }
        EXPECT(good, "listify of " << str(v) << ": entry out of range");
        if (good) back[ravel(q, shape)] += 1;
      }
      EXPECT(back == v, "listify of " << str(v) << " counts up to " << str(back));
    }
  }
  else
  {
    bool refused = false;
    try { listify(4, a); } catch (const std::exception&) { refused = true; }
    EXPECT(refused, "listify of " << str(v) << " is accepted");
  }
  ++cases;
}

template<typename T>
static void every(const V& shape, int lo, int hi)
{
  std::vector<T> v(volume(shape), (T)lo);
  for (;;)
  {
    small(shape, v);
    size_t k = v.size();
    while (k > 0 && v[k-1] == (T)hi) v[--k] = (T)lo;
    if (k == 0) break;
    v[k-1] += 1;
  }
}

static void group()
{
  for (const V& s: {V{1}, V{2}, V{3}, V{2, 2}, V{2, 3}, V{3, 1}, V{1, 2, 2}})
  {
    every<int64_t>(s, -1, 2);
    every<double>(s, -1, 2);
  }
  every<int64_t>(V{2, 2, 2}, 0, 1);
  every<int64_t>(V{2, 2, 2}, -1, 1);
  // the margins of the types
  const int64_t big = std::numeric_limits<int64_t>::max(), low = std::numeric_limits<int64_t>::min();
  for (int64_t v: {big, low, big - 1, low + 1, (int64_t)0})
    for (size_t k = 0; k < 3; ++k)
    {
      NDArray<int64_t> a(V{3});
      a.assign(v == 0 ? 5 : 0);
      a.begin()[k] = v;
      EXPECT(min(a) == std::min<int64_t>(v, v == 0 ? 5 : 0), "min with " << v);
      EXPECT(max(a) == std::max<int64_t>(v, v == 0 ? 5 : 0), "max with " << v);
    }
  for (double v: {1e300, -1e300, 1e-300, -1e-300, 0.0})
    for (size_t k = 0; k < 3; ++k)
    {
      NDArray<double> a(V{3});
      a.assign(v == 0 ? 5 : v > 0 ? -v : 2 * v);
      const double rest = a.begin()[0];
      a.begin()[k] = v;
      EXPECT(min(a) == std::min(v, rest) && max(a) == std::max(v, rest), "min, max with " << v);
    }
  for (const std::vector<std::vector<int64_t>>& m: std::vector<std::vector<std::vector<int64_t>>>{{{2, 3}, {5, 7, 11}}, {{1, 2}, {3, 4}, {5, 6}}, {{9}, {8}}})
  {
    V shape;
    for (auto& x: m) shape.push_back(x.size());
    for (int64_t k = 0; k < volume(shape); ++k)
    {
      const V p = unravel(k, shape);
      int64_t want = 1;
      for (size_t d = 0; d < p.size(); ++d) want *= m[d][p[d]];
      EXPECT(marginalProduct(m, p) == want, "marginalProduct at " << str(p));
    }
  }
}

#elif GROUP == 6

// ------------------------------------------------------------ NDArray as a state machine: every sequence of operations

// what is known of an array: content[i] is empty where it has not been written
struct Model
{
  enum { None, Owned, Wrapped, Moved } kind = None;
  V shape;
  std::vector<std::optional<int64_t>> content;
  int buffer = -1;
};

static const int SLOTS = 2;
static const std::vector<V> SHAPES = {{2}, {2, 3}, {3, 2}, {1, 1}};
static int64_t BUF[SLOTS][8];

struct World
{
  std::unique_ptr<NDArray<int64_t>> a[SLOTS];
  Model m[SLOTS];
};

static std::string text;

static void verify(World& w)
{
  for (int s = 0; s < SLOTS; ++s)
  {
    Model& m = w.m[s];
    if (m.kind == Model::None || m.kind == Model::Moved) continue;
    NDArray<int64_t>& a = *w.a[s];
    const NDArray<int64_t>& c = a;
    EXPECT(a.dim() == m.shape.size() && a.sizes() == m.shape, text << ": slot " << s << " has sizes " << str(a.sizes()) << ", should be " << str(m.shape));
    if (m.shape.empty()) { EXPECT(a.storageSize() == 0, text << ": not empty"); continue; }
    const int64_t n = volume(m.shape);
    EXPECT((int64_t)a.storageSize() == n && a.end() - a.begin() == n && a.begin() == a.rawData(), text << ": slot " << s << " has " << a.storageSize() << " elements");
    if ((int64_t)a.storageSize() != n) return;
    for (size_t d = 0; d < m.shape.size(); ++d) EXPECT((int64_t)a.size(d) == m.shape[d], text << ": size");
    if (m.kind == Model::Wrapped) EXPECT(a.rawData() == BUF[m.buffer], text << ": storage is not what was given");
    for (int64_t k = 0; k < n; ++k)
    {
      V p = unravel(k, m.shape);
      std::vector<int64_t*> q;
      for (int64_t& x: p) q.push_back(&x);
      EXPECT(&a[p] == a.begin() + k && &c[p] == &a[p] && &a[q] == &a[p] && &c[q] == &a[p], text << ": element " << str(p));
      if (m.content[k]) EXPECT(a[p] == *m.content[k], text << ": slot " << s << " holds " << a[p] << " at " << str(p) << ", should be " << *m.content[k]);
    }
    for (int o = 0; o < SLOTS; ++o)
      if (o != s && (w.m[o].kind == Model::Owned || w.m[o].kind == Model::Wrapped) && !w.m[o].shape.empty() && (m.kind == Model::Owned || w.m[o].buffer != m.buffer))
        EXPECT(w.a[o]->rawData() != a.rawData(), text << ": storage is shared");
  }
}

// operation o on slot s; false if it does not apply
static bool apply(World& w, int s, int o, int& stamp)
{
  Model& m = w.m[s];
  const int other = (s + 1) % SLOTS;
  Model& mo = w.m[other];
  const bool live = m.kind == Model::Owned || m.kind == Model::Wrapped;
  std::ostringstream t;
  if (o < 4)
  {
    t << " construct" << s << str(SHAPES[o]);
    w.a[s].reset();
    w.a[s].reset(new NDArray<int64_t>(SHAPES[o]));
    m = Model();
    m.kind = Model::Owned;
    m.shape = SHAPES[o];
    m.content.resize(volume(m.shape));
  }
  else if (o == 4)
  {
    t << " default" << s;
    w.a[s].reset(new NDArray<int64_t>());
    m = Model();
    m.kind = Model::Owned;
  }
  else if (o < 7)
  {
    const V& shape = SHAPES[o - 4];
    t << " wrap" << s << str(shape);
    if (mo.kind == Model::Wrapped && mo.buffer == s) return false;
    w.a[s].reset();
    for (int k = 0; k < 8; ++k) BUF[s][k] = ++stamp;
    w.a[s].reset(new NDArray<int64_t>(shape, BUF[s]));
    m = Model();
    m.kind = Model::Wrapped;
    m.shape = shape;
    m.buffer = s;
    for (int64_t k = 0; k < volume(shape); ++k) m.content.push_back(BUF[s][k]);
  }
  else if (o < 11)
  {
    const V& shape = SHAPES[o - 7];
    t << " resize" << s << str(shape);
    if (m.kind == Model::None) return false;
    bool threw = false;
    try { w.a[s]->resize(shape); } catch (const std::exception&) { threw = true; }
    if (m.kind == Model::Owned)
    {
      EXPECT(!threw, text << t.str() << ": refused");
      m.shape = shape;
      m.content.assign(volume(shape), std::nullopt);
    }
    else
      EXPECT(threw, text << t.str() << ": accepted for storage it does not own");
  }
  else if (o == 11)
  {
    t << " assign" << s;
    if (!live || m.shape.empty()) return false;
    w.a[s]->assign(++stamp);
    for (auto& x: m.content) x = stamp;
  }
  else if (o < 14)
  {
    t << " write" << s;
    if (!live || m.shape.empty()) return false;
    const int64_t k = o == 12 ? 0 : volume(m.shape) - 1;
    (*w.a[s])[unravel(k, m.shape)] = ++stamp;
    m.content[k] = stamp;
  }
  else if (o == 14)
  {
    t << " copy" << s << "to" << other;
    if (!live || m.shape.empty() || mo.kind == Model::None) return false;
    bool threw = false;
    try { NDArray<int64_t>::copy(*w.a[s], *w.a[other]); } catch (const std::exception&) { threw = true; }
    if (mo.kind == Model::Owned)
    {
      EXPECT(!threw, text << t.str() << ": refused");
      mo.shape = m.shape;
      mo.content = m.content;
    }
    else
      EXPECT(threw, text << t.str() << ": accepted for storage it does not own");
  }
  else if (o == 15)
  {
    t << " move" << s << "to" << other;
    if (!live) return false;
    std::unique_ptr<NDArray<int64_t>> moved(new NDArray<int64_t>(std::move(*w.a[s])));
    w.a[other] = std::move(moved);
    mo = m;
    m = Model();
    m.kind = Model::Moved;
  }
  else
  {
    t << " destroy" << s;
    if (m.kind == Model::None) return false;
    w.a[s].reset();
    m = Model();
  }
  text += t.str();
  return true;
}

static const int OPS = 17 * SLOTS;

static void group()
{
  const int depth = atoi(getenv("DEPTH") ? getenv("DEPTH") : "4");
  // slots are interchangeable, so the first operation is one of the first slot's; FIRST picks one of them
  const char* const first = getenv("FIRST");
  std::vector<int> seq(depth, 0);
  if (first) seq[0] = atoi(first);
  for (;;)
  {
    World w;
    int stamp = 100, bad = -1;
    text = "";
    for (int k = 0; k < depth; ++k)
    {
      if (!apply(w, seq[k] / 17, seq[k] % 17, stamp)) { bad = k; break; }
      verify(w);
    }
    // the next sequence that differs where this one stopped
    int k = bad >= 0 ? bad : depth - 1;
    if (bad < 0) ++cases;
    for (int j = k + 1; j < depth; ++j) seq[j] = 0;
    while (k >= 0 && seq[k] == OPS - 1) seq[k--] = 0;
    if (k < 0) break;
    ++seq[k];
    if (seq[0] >= 17 || (first && seq[0] != atoi(first))) break;
  }
}

#endif

int main()
{
  group();
  printf("COUNT cases %llu\nCOUNT steps %llu\n", (unsigned long long)cases, (unsigned long long)steps);
  printf("DONE\n");
  return fails ? 1 : 0;
}
