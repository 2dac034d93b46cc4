// Force-included before everything else.
//
// As in the project's own build here, the library is compiled with its own
// Optional: the standard library is included first, then __has_include is
// hidden. Mode "std" of C06 and C07 leaves it visible, so that the library uses
// std::optional.
#pragma once
#include <bits/stdc++.h>
#ifndef STD_OPTIONAL
#undef __has_include
#endif
