#include <daisy_rtl/daisy_rtl.h>
long long c_pow(long long b, long long e) { return __daisy_sym_pow(b, e); }
long long c_min(long long a, long long b, long long k) {
    return __daisy_min(a - k, b) + __daisy_min(a | k, b & 15) + __daisy_min(k ? a : b, k > 2 ? b : a) * 3 + 5 * __daisy_min(b ^ k, a || k) +
           2 * -__daisy_min(__daisy_min(a, k), k);
}
long long c_max(long long a, long long b, long long k) {
    return __daisy_max(a - k, b) - __daisy_max(k ? a : b, b + k) + __daisy_max(a & 7, b | k) * 3 + 5 * __daisy_max(a == b, k ? b : a) +
           2 * -__daisy_max(__daisy_max(a, k), k);
}
double c_fma(double x, double y, double z) { return 2.0 * __daisy_fma(x + 1.0, y - 1.0, z) + __daisy_fma(x, y > 0 ? y : z, z > x ? 1.0 : z); }
double c_fmin(double x, double y) { return __daisy_min(x, y); }
double c_fmax(double x, double y) { return __daisy_max(x, y); }
