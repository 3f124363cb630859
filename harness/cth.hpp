#pragma once
#ifdef CTH_SINGLE
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif
