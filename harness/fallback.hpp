// Compiles the library's portable (no SIMD) code path on x86: the system headers come first,
// then the architecture macro is taken away so that math/simd/types.hpp selects the 32-bit ARM branch.
#include <bits/stdc++.h>
#include <unistd.h>
#include <sys/stat.h>
#undef __x86_64__
#define __arm__ 1
