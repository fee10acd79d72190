// Included in front of the library's sources in the schedule checks: block copies become visible calls.
#ifndef VP_MEM_SHIM_HPP
#define VP_MEM_SHIM_HPP
#include <stddef.h>
extern "C" {
void *vp_memcpy(void *, const void *, size_t) noexcept;
void *vp_memmove(void *, const void *, size_t) noexcept;
void *vp_memset(void *, int, size_t) noexcept;
}
#define __builtin_memcpy vp_memcpy
#define __builtin_memmove vp_memmove
#define __builtin_memset vp_memset
#endif
