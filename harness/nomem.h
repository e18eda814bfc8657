// Included before everything else: malloc, calloc and free of the code under test are the harness's.
#include <cstdlib>
extern "C" void* hl_malloc(std::size_t) noexcept;
extern "C" void* hl_calloc(std::size_t, std::size_t) noexcept;
extern "C" void hl_free(void*) noexcept;
namespace std { using ::hl_malloc; using ::hl_calloc; using ::hl_free; }
#define malloc hl_malloc
#define calloc hl_calloc
#define free hl_free
