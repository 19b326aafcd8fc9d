/* included first in every source of the engine for the h2 build */
#pragma once
#include <immintrin.h>
#ifdef __cplusplus
extern "C" void hv_pause();
#else
void hv_pause(void);
#endif
#define _mm_pause() hv_pause()
#define __builtin_ia32_pause() hv_pause()
