// Included first in the sanitized builds: Eigen's own checks stay on without those of the code under test, some of
// which are plausibility limits rather than errors.
#pragma once
#include <cstdio>
#include <cstdlib>
#define eigen_assert(x)                                                          \
    do {                                                                         \
        if (!(x)) {                                                              \
            fprintf(stderr, "%s:%d: Eigen assertion: %s\n", __FILE__, __LINE__, #x); \
            abort();                                                             \
        }                                                                        \
    } while (0)
