// Heap accounting without looking inside the code under test.
#ifndef VERIF_MEM_H_
#define VERIF_MEM_H_
#include <malloc.h>
#include <stddef.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define VERIF_ASAN 1
#endif
#ifdef VERIF_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
inline size_t heap_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
inline size_t heap_bytes() {
  struct mallinfo2 m = mallinfo2();
  return m.uordblks + m.hblkhd;
}
#endif
#endif
