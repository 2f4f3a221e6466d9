// C07: integer helpers that generated code relies on for index arithmetic.
#include "../pbt.h"
#include <daisy_rtl/daisy_rtl.h>
using namespace pbt;
extern "C" {
long long c_pow(long long, long long);
long long c_min(long long, long long, long long);
long long c_max(long long, long long, long long);
double c_fma(double, double, double);
double c_fmin(double, double);
double c_fmax(double, double);
}
static long long mn(long long a, long long b) { return a < b ? a : b; }
static long long mx(long long a, long long b) { return a > b ? a : b; }
static void prop(Src& s, Case& c) {
    if (s.flip()) {
        long long b, e;
        if (s.flip()) {
            b = s.sym(12);
            e = s.below(20);
        } else {
            b = s.sym(4000000);
            e = s.below(4);
        }
        if (s.chance(10)) {
            b = s.pick<long long>({-1, 0, 1, 2, -2, 3, 7, -3, 10});
            e = s.chance(30) ? s.range(60, 100000) : s.below(64);
        }
        if (s.chance(3)) {
            // a huge exponent of a base that stays small
            b = s.sym(1);
            e = s.flip() ? s.range(1, INT64_MAX) : (1LL << s.below(63)) + s.below(2);
            c << b << "^" << e;
            long long w = b == 0 ? 0 : b == 1 || e % 2 == 0 ? 1 : -1;
            c.check(__daisy_sym_pow(b, e) == w && c_pow(b, e) == w, std::to_string(b) + "^" + std::to_string(e) + " is not " + std::to_string(w));
            c.nontrivial("h" + c.trace.str());
            return;
        }
        if (s.chance(5)) {
            b = (long long) s.u64();
            e = s.below(3);
        }
        if (s.chance(8)) e = -1 - (long long) s.below(5);
        __int128 want = 1;
        bool fits = true;
        if (e < 0) {
            if (b >= -1 && b <= 1) c.discard();
            want = 0;
        } else
            for (long long i = 0; i < e && fits && !(i > 2 && (b == 1 || b == 0)); ++i) {
                want *= b;
                if (want > INT64_MAX || want < INT64_MIN) fits = false;
            }
        if (!fits) c.discard();
        c << b << "^" << e;
        long long g1 = __daisy_sym_pow(b, e), g2 = c_pow(b, e);
        c.check(g1 == (long long) want, std::to_string(b) + "^" + std::to_string(e) + " = " + std::to_string(g1) + ", expected " + std::to_string((long long) want));
        c.check(g2 == g1, "C and C++ disagree");
        if (want > INT32_MAX || want < INT32_MIN) c.label("beyond 32 bit");
        if (e > 1) c.nontrivial("p" + c.trace.str());
    } else {
        if (s.chance(5)) {
            long long a = (long long) s.u64(), b = s.flip() ? (long long) s.u64() : s.pick<long long>({INT64_MAX, INT64_MIN, 0, -1, 1LL << 32, a});
            c << "min/max " << a << " " << b;
            c.check(__daisy_min(a, b) == mn(a, b) && __daisy_max(a, b) == mx(a, b), "min/max");
            c.nontrivial("M" + c.trace.str());
            return;
        }
        long long a = s.sym(s.flip() ? 8 : 1LL << 40), b = s.sym(s.flip() ? 8 : 1LL << 40), k = s.below(6);
        c << "min/max " << a << " " << b << " " << k;
        c.check(c_min(a, b, k) == mn(a - k, b) + mn(a | k, b & 15) + mn(k ? a : b, k > 2 ? b : a) * 3 + 5 * mn(b ^ k, a || k) + 2 * -mn(mn(a, k), k), "min of compound arguments");
        c.check(c_max(a, b, k) == mx(a - k, b) - mx(k ? a : b, b + k) + mx(a & 7, b | k) * 3 + 5 * mx(a == b, k ? b : a) + 2 * -mx(mx(a, k), k), "max of compound arguments");
        c.check(__daisy_min(a, b) == mn(a, b) && __daisy_max(a, b) == mx(a, b), "min/max");
        double x = s.sym(1000) / 8.0, y = s.sym(1000) / 8.0, z = s.sym(1000) / 8.0;
        c.check(c_fma(x, y, z) == 2.0 * ((x + 1.0) * (y - 1.0) + z) + (x * (y > 0 ? y : z) + (z > x ? 1.0 : z)), "fma of compound arguments");
        c.check(c_fmin(x, y) == (x < y ? x : y) && c_fmax(x, y) == (x > y ? x : y), "floating min/max");
        if (a != b) c.nontrivial("m" + c.trace.str());
    }
}
int main(int argc, char** argv) {
    Options o;
    o.id = "C07";
    o.rule = "integer powers whose exact value fits 64 bits and min/max/fma over compound arguments, called from C and C++; non-trivial = "
             "exponent > 1 / distinct arguments";
    o.quick = 1500000;
    o.thorough = 20000000;
    return Runner(o, prop).main(argc, argv);
}
