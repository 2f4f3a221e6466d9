// Random symbolic expressions and conditions.
#pragma once
#include "../pbt.h"
#include "eval.h"
#include "sdfg/symbolic/symbolic.h"

namespace si {
using namespace sdfg;

struct ExprGen {
    pbt::Src& s;
    std::vector<std::string> names{"i", "j", "k", "N", "M"};
    bool divs = true, minmax = true, funcs = true, pows = true, abss = true, sizes = false, big = false;
    int max_exp = 3;

    symbolic::Symbol sym() { return symbolic::symbol(names[s.below(names.size())]); }
    symbolic::Expression constant() {
        if (big && s.chance(10)) return symbolic::integer(s.pick<int64_t>({INT32_MAX, INT32_MIN, 4294967296L, INT64_MAX / 4, -(1L << 40)}));
        return symbolic::integer((long) s.below(12) - 4);
    }
    // constants that do not fit a machine integer cannot be divided: not generated
    static bool wide(const symbolic::Expression& e) {
        return SymEngine::is_a<SymEngine::Integer>(*e) && !mpz_fits_slong_p(SymEngine::rcp_static_cast<const SymEngine::Integer>(e)->as_integer_class().get_mpz_t());
    }
    symbolic::Expression divide(const symbolic::Expression& a, const symbolic::Expression& b) { return wide(a) || wide(b) ? a : symbolic::div(a, b); }
    symbolic::Expression remainder(const symbolic::Expression& a, long b) { return wide(a) ? a : symbolic::mod(a, symbolic::integer(b)); }
    symbolic::Expression expr(int d) {
        if (d <= 0) return s.chance(65) ? (symbolic::Expression) sym() : constant();
        switch (s.weighted({18, 22, 12, 20, divs ? 8 : 0, minmax ? 8 : 0, funcs ? 6 : 0, pows ? 4 : 0, abss ? 3 : 0, sizes ? 4 : 0, divs ? 3 : 0})) {
            case 0: return expr(0);
            case 1: return symbolic::add(expr(d - 1), expr(d - 1));
            case 2: return symbolic::sub(expr(d - 1), expr(d - 1));
            case 3: return s.chance(60) ? symbolic::mul(constant(), expr(d - 1)) : symbolic::mul(expr(d - 1), expr(d - 1));
            case 4: return divide(expr(d - 1), s.chance(75) ? (symbolic::Expression) symbolic::integer(1 + (long) s.below(6)) : expr(d - 1));
            case 5: {
                auto a = expr(d - 1), b = expr(d - 1);
                return s.flip() ? symbolic::min(a, b) : symbolic::max(a, b);
            }
            case 6: return s.chance(70) ? symbolic::zext_i64(expr(d - 1)) : symbolic::trunc_i32(expr(d - 1));
            case 7: return symbolic::pow(expr(d - 1), symbolic::integer(1 + (long) s.below(max_exp)));
            case 8: return symbolic::abs(expr(d - 1));
            case 9: return s.flip() ? symbolic::dynamic_sizeof(sym()) : symbolic::malloc_usable_size(sym());
            default: return remainder(expr(d - 1), 1 + (long) s.below(6));
        }
    }
    symbolic::Condition compare(int d) {
        auto a = expr(d), b = expr(d);
        switch (s.below(6)) {
            case 0: return symbolic::Eq(a, b);
            case 1: return symbolic::Ne(a, b);
            case 2: return symbolic::Lt(a, b);
            case 3: return symbolic::Le(a, b);
            case 4: return symbolic::Gt(a, b);
            default: return symbolic::Ge(a, b);
        }
    }
    symbolic::Condition cond(int d, int ed = 1) {
        if (d <= 0) return s.chance(4) ? (s.flip() ? symbolic::__true__() : symbolic::__false__()) : compare(ed);
        switch (s.below(5)) {
            case 0: return compare(ed);
            case 1: return symbolic::Not(cond(d - 1, ed));
            case 2:
            case 3: return symbolic::And(cond(d - 1, ed), cond(d - 1, ed));
            default: return symbolic::Or(cond(d - 1, ed), cond(d - 1, ed));
        }
    }
};
} // namespace si
