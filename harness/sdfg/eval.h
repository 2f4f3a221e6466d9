// Evaluation of symbolic expressions over the mathematical integers (the meaning docc gives to symbols):
// idiv truncates toward zero as C does, zext_i64/trunc_i32 reinterpret, min/max/abs/pow/comparisons as usual.
#pragma once
#include <functional>
#include <string>
#include "sdfg/symbolic/symbolic.h"

namespace si {

typedef __int128 I;

inline std::string istr(I v) {
    if (v == 0) return "0";
    bool n = v < 0;
    std::string s;
    unsigned __int128 u = n ? -(unsigned __int128) v : v;
    while (u) {
        s.insert(s.begin(), (char) ('0' + (int) (u % 10)));
        u /= 10;
    }
    return n ? "-" + s : s;
}

struct EvalError : std::runtime_error {
    using std::runtime_error::runtime_error;
};

inline bool ov_add(I a, I b, I* r) { return __builtin_add_overflow(a, b, r); }
inline bool ov_mul(I a, I b, I* r) { return __builtin_mul_overflow(a, b, r); }

// where: name -> value; throws EvalError when a name is unknown
struct Evaluator {
    std::function<I(const std::string&)> lookup;
    std::function<I(const SymEngine::FunctionSymbol&)> other_function; // sizeof and friends

    I big(const SymEngine::Integer& i) const {
        const auto& z = i.as_integer_class();
        if (mpz_sizeinbase(z.get_mpz_t(), 2) > 120) throw EvalError("integer too large");
        mpz_class a = abs(z);
        mpz_class lo = a & mpz_class("18446744073709551615"), hi = a >> 64;
        unsigned __int128 u = ((unsigned __int128) mpz_get_ui(hi.get_mpz_t()) << 64) | mpz_get_ui(lo.get_mpz_t());
        return sgn(z) < 0 ? -(I) u : (I) u;
    }

    bool range64 = false; // values outside a 64-bit integer have no meaning

    I eval(const SymEngine::RCP<const SymEngine::Basic>& e) const {
        I r = eval_node(e);
        if (range64 && (r > (I) INT64_MAX || r < (I) INT64_MIN)) throw EvalError("outside the 64-bit range");
        return r;
    }
    I eval_node(const SymEngine::RCP<const SymEngine::Basic>& e) const {
        using namespace SymEngine;
        const Basic& b = *e;
        if (is_a<Integer>(b)) return big(static_cast<const Integer&>(b));
        if (is_a<Symbol>(b)) return lookup(static_cast<const Symbol&>(b).get_name());
        if (is_a<BooleanAtom>(b)) return static_cast<const BooleanAtom&>(b).get_val() ? 1 : 0;
        auto args = b.get_args();
        if (is_a<Add>(b)) {
            I r = 0;
            for (auto& a : args)
                if (ov_add(r, eval(a), &r)) throw EvalError("overflow");
            return r;
        }
        if (is_a<Mul>(b)) {
            // a rational coefficient is exact as long as the whole product is integral
            I r = 1, den = 1;
            for (auto& a : args) {
                if (is_a<Rational>(*a)) {
                    auto& q = static_cast<const Rational&>(*a);
                    if (ov_mul(r, big(*q.get_num()), &r)) throw EvalError("overflow");
                    den *= big(*q.get_den());
                } else if (ov_mul(r, eval(a), &r))
                    throw EvalError("overflow");
            }
            if (den != 1) {
                if (r % den != 0) throw EvalError("not an integer");
                r /= den;
            }
            return r;
        }
        if (is_a<Pow>(b)) {
            I x = eval(args[0]), n = eval(args[1]), r = 1;
            if (n < 0) {
                if (x == 1) return 1;
                if (x == -1) return (n & 1) ? -1 : 1;
                throw EvalError("negative exponent");
            }
            if (n > 200) throw EvalError("exponent too large");
            for (I k = 0; k < n; ++k)
                if (ov_mul(r, x, &r)) throw EvalError("overflow");
            return r;
        }
        if (is_a<Min>(b) || is_a<Max>(b)) {
            I r = eval(args[0]);
            for (size_t k = 1; k < args.size(); ++k) {
                I v = eval(args[k]);
                if (is_a<Min>(b) ? v < r : v > r) r = v;
            }
            return r;
        }
        if (is_a<And>(b)) {
            for (auto& a : args)
                if (!eval(a)) return 0;
            return 1;
        }
        if (is_a<Or>(b)) {
            for (auto& a : args)
                if (eval(a)) return 1;
            return 0;
        }
        if (is_a<Not>(b)) return !eval(args[0]);
        if (is_a<Equality>(b)) return eval(args[0]) == eval(args[1]);
        if (is_a<Unequality>(b)) return eval(args[0]) != eval(args[1]);
        if (is_a<LessThan>(b)) return eval(args[0]) <= eval(args[1]);
        if (is_a<StrictLessThan>(b)) return eval(args[0]) < eval(args[1]);
        if (auto f = dynamic_cast<const FunctionSymbol*>(&b)) {
            const std::string& n = f->get_name();
            if (n == "idiv") {
                I x = eval(args[0]), y = eval(args[1]);
                if (y == 0) throw EvalError("division by zero");
                return x / y;
            }
            if (n == "iabs") {
                I x = eval(args[0]);
                return x < 0 ? -x : x;
            }
            if (n == "imod") {
                I x = eval(args[0]), y = eval(args[1]);
                if (y == 0) throw EvalError("division by zero");
                return x % y;
            }
            if (n == "zext_i64") return (I) (long long) eval(args[0]);
            if (n == "trunc_i32") return (I) (int) (unsigned) (unsigned long long) eval(args[0]);
            if (other_function) return other_function(*f);
            throw EvalError("unknown function " + n);
        }
        throw EvalError("unsupported expression " + b.__str__());
    }
};

} // namespace si
