// contracts on parallel loops: functional comparison only natively (the sequential function is proved under its own property)
#pragma once
#include "img.h"
#include <execution>
#ifdef VK_REPLAY
#define PASSERT(c, what) vk_assert_((c), what)
#else
#define PASSERT(c, what) (void)0
#endif
