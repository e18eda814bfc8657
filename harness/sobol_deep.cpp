// sobol_deep <dim> <skip> <table>: compares every point from the one after the skip to the last one with the definition,
// and the end of the sequence. <table>: 32 rows of dim direction numbers, 32 bit little endian. Prints one line and
// exits 0 (as specified) or 1.
#include "Sobol.h"
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <vector>

int main(int argc, char** argv)
{
  const uint32_t dim = atoi(argv[1]);
  const uint32_t skip = strtoul(argv[2], nullptr, 10);
  std::vector<uint32_t> V(32 * dim);
  FILE* f = fopen(argv[3], "rb");
  if (!f || fread(V.data(), 4, V.size(), f) != V.size()) return 2;
  fclose(f);

  // the largest power of two below skip
  uint64_t start = 0;
  if (skip > 0)
    for (start = 1; 2 * start < skip; start *= 2);
  std::vector<uint32_t> x(dim, 0);
  const uint64_t g = start ^ (start >> 1);
  for (int j = 0; j < 32; ++j)
    if (g >> j & 1)
      for (uint32_t i = 0; i < dim; ++i) x[i] ^= V[j * dim + i];

  Sobol s(dim, skip);
  uint64_t n = start + 1;
  for (; n < 1ull << 32; ++n)
  {
    const uint32_t* v = &V[__builtin_ctzll(n) * dim];
    const uint32_t* b;
    try { b = s.buf().data(); }
    catch (const std::exception& e)
    {
      printf("point %llu is not available: %s\n", (unsigned long long)n, e.what());
      return 1;
    }
    for (uint32_t i = 0; i < dim; ++i)
    {
      x[i] ^= v[i];
      if (x[i] != b[i])
      {
        printf("point %llu, dimension %u: %u, should be %u\n", (unsigned long long)n, i, b[i], x[i]);
        return 1;
      }
    }
  }
  for (int k = 0; k < 3; ++k)
  {
    bool threw = false;
    try { s.buf(); } catch (const std::out_of_range&) { threw = true; }
    if (!threw)
    {
      printf("a point beyond the 2^32-1 there are\n");
      return 1;
    }
  }
  printf("%llu points\n", (unsigned long long)(n - start - 1));
  return 0;
}
