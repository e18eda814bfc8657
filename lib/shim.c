/* Answers the HUMANLEAGUE_VERIFY hook from a buffer the harness fills: the environment of the samplers. */
#include <stdint.h>
#include <string.h>
static const uint32_t* g_data; static uint64_t g_len, g_pos; static uint64_t g_calls; static int g_mode; static uint32_t g_dim;
/* mode 0: off (generate normally). mode 1: supply from the buffer, then report exhaustion. */
int hlshim_next(uint32_t dim, uint32_t* x)
{
  g_calls++; g_dim = dim;
  if (g_mode == 0) return -1;
  if (g_pos + dim > g_len) return 0;
  memcpy(x, g_data + g_pos, dim * sizeof(uint32_t));
  g_pos += dim;
  return 1;
}
void hlshim_set(const uint32_t* data, uint64_t len, int mode) { g_data = data; g_len = len; g_pos = 0; g_mode = mode; g_calls = 0; g_dim = 0; }
uint64_t hlshim_calls(void) { return g_calls; }
uint64_t hlshim_pos(void) { return g_pos; }
uint32_t hlshim_dim(void) { return g_dim; }
