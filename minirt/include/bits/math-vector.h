#include <bits/libm-simd-decl-stubs.h>
