// C21: symbolic expressions. Every answer of the symbolic layer (constructors, simplification, substitution, normal
// forms, polynomials, bounds, set and map queries, delinearisation) is compared with plain integer evaluation.
#include "pch.h"
#include "eval.h"
#include "exprs.h"
#include "sdfg/symbolic/assumptions.h"
#include "sdfg/symbolic/conjunctive_normal_form.h"
#include "sdfg/symbolic/extreme_values.h"
#include "sdfg/symbolic/maps.h"
#include "sdfg/symbolic/polynomials.h"
#include "sdfg/symbolic/series.h"
#include "sdfg/symbolic/sets.h"
#include "sdfg/symbolic/utils.h"

using namespace sdfg;
using namespace si;
namespace sy = symbolic;
typedef std::map<std::string, long> Env;

static I value(const sy::Expression& e, const Env& env) {
    Evaluator ev;
    ev.lookup = [&](const std::string& n) -> I {
        auto it = env.find(n);
        if (it == env.end()) throw EvalError("unknown symbol " + n);
        return it->second;
    };
    return ev.eval(e);
}
static bool try_value(const sy::Expression& e, const Env& env, I& out) {
    try {
        out = value(e, env);
        return true;
    } catch (EvalError&) {
        return false;
    }
}
static std::string show(const Env& env) {
    std::string r;
    for (auto& [k, v] : env) r += (r.empty() ? "" : ", ") + k + "=" + std::to_string(v);
    return "{" + r + "}";
}
static std::string str(const sy::Expression& e) { return e.is_null() ? "null" : e->__str__(); }
static std::string str(const sy::MultiExpression& m) {
    std::string r;
    for (auto& e : m) r += (r.empty() ? "" : ", ") + str(e);
    return "[" + r + "]";
}

// ---------------------------------------------------------------------------------------------------------------
// Trees: a second representation of the same expression, evaluated directly
// ---------------------------------------------------------------------------------------------------------------
enum Op { SYM, INT, ADD, SUB, MUL, DIV, MOD, MIN, MAX, ABS, POW, CEIL, ZEXT, TRUNC, EQ, NE, LT, LE, GT, GE, AND, OR, NOT, TRUE_, FALSE_ };
static const char* OPS[] = {"", "", "add", "sub", "mul", "div", "mod", "min", "max", "abs", "pow", "divide_ceil", "zext_i64", "trunc_i32", "Eq", "Ne", "Lt", "Le", "Gt", "Ge", "And", "Or", "Not", "true", "false"};
struct Tree {
    Op op;
    long v = 0;
    std::string name;
    std::vector<Tree> k;
};
static std::string str(const Tree& t) {
    if (t.op == SYM) return t.name;
    if (t.op == INT) return std::to_string(t.v);
    std::string r = std::string(OPS[t.op]) + "(";
    for (size_t i = 0; i < t.k.size(); ++i) r += (i ? ", " : "") + str(t.k[i]);
    return r + ")";
}
struct Undefined {};
static I chk(I v) {
    if (v > ((I) 1 << 62) || v < -((I) 1 << 62)) throw Undefined();
    return v;
}
static I meaning(const Tree& t, const Env& env) {
    auto a = [&](size_t i) { return meaning(t.k[i], env); };
    switch (t.op) {
        case SYM: return env.at(t.name);
        case INT: return t.v;
        case ADD: return chk(a(0) + a(1));
        case SUB: return chk(a(0) - a(1));
        case MUL: return chk(a(0) * a(1));
        case DIV: {
            I x = a(0), y = a(1);
            if (y == 0) throw Undefined();
            return x / y;
        }
        case MOD: {
            I x = a(0), y = a(1);
            if (y == 0) throw Undefined();
            return x % y;
        }
        case MIN: return std::min(a(0), a(1));
        case MAX: return std::max(a(0), a(1));
        case ABS: {
            I x = a(0);
            return x < 0 ? -x : x;
        }
        case POW: {
            I x = a(0), r = 1;
            for (long n = t.k[1].v; n > 0; --n) r = chk(r * x);
            return r;
        }
        case CEIL: {
            I x = a(0), y = a(1);
            if (x < 0 || y <= 0) throw Undefined();
            return (x + y - 1) / y;
        }
        case ZEXT: return a(0);
        case TRUNC: {
            I x = a(0);
            if (x > INT32_MAX || x < INT32_MIN) throw Undefined();
            return x;
        }
        case EQ: return a(0) == a(1);
        case NE: return a(0) != a(1);
        case LT: return a(0) < a(1);
        case LE: return a(0) <= a(1);
        case GT: return a(0) > a(1);
        case GE: return a(0) >= a(1);
        case AND: {
            I x = a(0), y = a(1);
            return x && y;
        }
        case OR: {
            I x = a(0), y = a(1);
            return x || y;
        }
        case NOT: return !a(0);
        case TRUE_: return 1;
        default: return 0;
    }
}
static sy::Expression build(const Tree& t);
static sy::Condition buildc(const Tree& t) {
    switch (t.op) {
        case EQ: return sy::Eq(build(t.k[0]), build(t.k[1]));
        case NE: return sy::Ne(build(t.k[0]), build(t.k[1]));
        case LT: return sy::Lt(build(t.k[0]), build(t.k[1]));
        case LE: return sy::Le(build(t.k[0]), build(t.k[1]));
        case GT: return sy::Gt(build(t.k[0]), build(t.k[1]));
        case GE: return sy::Ge(build(t.k[0]), build(t.k[1]));
        case AND: return sy::And(buildc(t.k[0]), buildc(t.k[1]));
        case OR: return sy::Or(buildc(t.k[0]), buildc(t.k[1]));
        case NOT: return sy::Not(buildc(t.k[0]));
        case TRUE_: return sy::__true__();
        default: return sy::__false__();
    }
}
static sy::Expression build(const Tree& t) {
    switch (t.op) {
        case SYM: return sy::symbol(t.name);
        case INT: return sy::integer(t.v);
        case ADD: return sy::add(build(t.k[0]), build(t.k[1]));
        case SUB: return sy::sub(build(t.k[0]), build(t.k[1]));
        case MUL: return sy::mul(build(t.k[0]), build(t.k[1]));
        case DIV: return sy::div(build(t.k[0]), build(t.k[1]));
        case MOD: return sy::mod(build(t.k[0]), build(t.k[1]));
        case MIN: return sy::min(build(t.k[0]), build(t.k[1]));
        case MAX: return sy::max(build(t.k[0]), build(t.k[1]));
        case ABS: return sy::abs(build(t.k[0]));
        case POW: return sy::pow(build(t.k[0]), build(t.k[1]));
        case CEIL: return sy::divide_ceil(build(t.k[0]), build(t.k[1]));
        case ZEXT: return sy::zext_i64(build(t.k[0]));
        case TRUNC: return sy::trunc_i32(build(t.k[0]));
        default: return buildc(t);
    }
}
static bool has_const_zero_divisor(const Tree& t) {
    // a divisor that is the constant 0 makes the whole expression meaningless
    for (auto& c : t.k)
        if (has_const_zero_divisor(c)) return true;
    if (t.op == DIV || t.op == MOD || t.op == CEIL) {
        auto e = build(t.k[1]);
        if (sy::eq(e, sy::zero())) return true;
        if (t.op == CEIL) {
            auto d = build(t.k[0]);
            if (ExprGen::wide(d)) return true;
        }
        if (ExprGen::wide(e) || ExprGen::wide(build(t.k[0]))) return true;
    }
    return false;
}
struct TreeGen {
    pbt::Src& s;
    std::vector<std::string> names{"i", "j", "k", "N"};
    Tree leaf() {
        if (s.chance(65)) return Tree{SYM, 0, names[s.below(names.size())], {}};
        return Tree{INT, s.chance(8) ? s.pick<long>({INT32_MAX, INT32_MIN, 4294967296L, 1000003L}) : (long) s.below(14) - 4, "", {}};
    }
    Tree num(int d) {
        if (d <= 0) return leaf();
        Op op = s.pick<Op>({ADD, ADD, SUB, MUL, MUL, DIV, DIV, MOD, MIN, MAX, MAX, ABS, POW, CEIL, ZEXT, TRUNC});
        Tree t{op, 0, "", {}};
        t.k.push_back(num(d - 1));
        if (op == POW) t.k.push_back(Tree{INT, (long) s.below(4), "", {}});
        else if (op == DIV || op == MOD || op == CEIL) {
            if (s.chance(60)) t.k.push_back(Tree{INT, (long) s.below(9) + 1, "", {}});
            else t.k.push_back(num(d - 1));
            // a multiple of the divisor
            if (op == DIV && s.chance(30)) t.k[0] = Tree{MUL, 0, "", {t.k[1], t.k[0]}};
        } else if (op != ABS && op != ZEXT && op != TRUNC)
            t.k.push_back(num(d - 1));
        return t;
    }
    Tree boolean(int d) {
        if (d <= 0) {
            if (s.chance(3)) return Tree{s.flip() ? TRUE_ : FALSE_, 0, "", {}};
            return Tree{s.pick<Op>({EQ, NE, LT, LE, GT, GE}), 0, "", {num((int) s.below(3)), num((int) s.below(2))}};
        }
        Op op = s.pick<Op>({AND, OR, NOT, AND, OR});
        Tree t{op, 0, "", {}};
        t.k.push_back(boolean(d - 1));
        if (op != NOT) t.k.push_back(boolean(s.chance(30) ? d - 1 : 0));
        return t;
    }
};
static bool is_bool(Op o) { return o >= EQ; }

static Env random_env(pbt::Src& s, const std::vector<std::string>& names) {
    Env e;
    int mode = (int) s.below(4);
    for (auto& n : names) e[n] = mode == 0 ? (long) s.below(6) : mode == 1 ? s.sym(6) : mode == 2 ? s.sym(40) : s.sym(3000);
    return e;
}

static void section_build(pbt::Src& s, pbt::Case& c) {
    TreeGen g{s};
    bool cond = s.chance(40);
    Tree t = cond ? g.boolean(1 + (int) s.below(3)) : g.num(1 + (int) s.below(4));
    c << "expression: " << str(t) << "\n";
    if (has_const_zero_divisor(t)) c.discard();
    sy::Expression e = build(t);
    c << "built:      " << str(e) << "\n";
    if (e->__str__().find("zoo") != std::string::npos || e->__str__().find("nan") != std::string::npos) c.discard();
    sy::Expression simple = sy::simplify(e), wide = cond ? e : sy::expand(e), both = sy::simplify(wide);
    c << "simplified: " << str(simple) << "\nexpanded:   " << str(wide) << "\n";
    std::string var = g.names[s.below(g.names.size())];
    Tree rt = g.num((int) s.below(3));
    if (has_const_zero_divisor(rt)) c.discard();
    sy::Expression rep = build(rt), sub;
    bool subs_ok = true;
    try {
        if (cond) sub = sy::subs(SymEngine::rcp_static_cast<const SymEngine::Boolean>(e), sy::symbol(var), rep);
        else sub = sy::subs(e, sy::symbol(var), rep);
    } catch (SymEngine::SymEngineException&) {
        subs_ok = false; // a divisor became the constant 0, or a constant does not fit
    }
    c << "with " << var << " := " << str(rt) << ": " << (subs_ok ? str(sub) : "-") << "\n";
    Tree t2 = s.chance(50) ? t : (cond ? g.boolean(1) : g.num(2));
    if (!t2.k.empty() && s.flip() && !cond && t2.op != POW && t2.op != DIV && t2.op != MOD && t2.op != CEIL) std::reverse(t2.k.begin(), t2.k.end());
    if (has_const_zero_divisor(t2)) c.discard();
    sy::Expression e2 = build(t2);
    bool same = sy::eq(e, e2);
    auto names = sy::atoms(e);
    size_t defined = 0;
    for (auto& n : g.names) {
        bool in = names.count(sy::symbol(n)) != 0;
        if (in != sy::uses(e, sy::symbol(n)) || in != sy::uses(e, n)) c.fail("uses() and atoms() disagree about " + n);
    }
    bool all_true = true, all_false = true;
    for (int r = 0; r < 14; ++r) {
        Env env = random_env(s, g.names);
        I m;
        try {
            m = meaning(t, env);
        } catch (Undefined&) {
            continue;
        }
        if (m) all_false = false;
        else all_true = false;
        ++defined;
        auto want = [&](const char* what, const sy::Expression& x) {
            I v;
            try {
                v = value(x, env);
            } catch (EvalError& err) {
                if (std::string(err.what()).find("overflow") != std::string::npos || std::string(err.what()).find("large") != std::string::npos) return;
                c.fail(std::string(what) + " has no value (" + err.what() + ") where the expression is " + istr(m) + " at " + show(env) + ": " + str(x));
            }
            if (v != m) c.fail(std::string(what) + " is " + istr(v) + " instead of " + istr(m) + " at " + show(env) + ": " + str(x));
        };
        want("the built expression", e);
        want("simplify()", simple);
        want("expand()", wide);
        want("simplify(expand())", both);
        if (sy::is_true(e) && !m) c.fail("is_true() for a condition that is false at " + show(env));
        if (sy::is_false(e) && m) c.fail("is_false() for a condition that is true at " + show(env));
        for (auto& n : g.names)
            if (!names.count(sy::symbol(n))) {
                Env other = env;
                other[n] += 1 + (long) s.below(5);
                I m2;
                try {
                    m2 = meaning(t, other);
                } catch (Undefined&) {
                    continue;
                }
                if (m2 != m) c.fail("the value depends on " + n + ", which atoms() does not name");
            }
        if (same) {
            try {
                I m2 = meaning(t2, env);
                if (m2 != m) c.fail("eq() for expressions of different values at " + show(env) + ": " + str(t2));
            } catch (Undefined&) {
            }
        }
        if (subs_ok) {
            Env at = env;
            I want_v;
            try {
                I rv = meaning(rt, env);
                if (rv > 100000000 || rv < -100000000) continue;
                at[var] = (long) rv;
                want_v = meaning(t, at);
            } catch (Undefined&) {
                continue;
            }
            I got;
            if (try_value(sub, env, got) && got != want_v)
                c.fail("subs() gives " + istr(got) + " instead of " + istr(want_v) + " at " + show(env) + ": " + str(sub));
        }
    }
    if (defined >= 3) c.nontrivial(str(e).substr(0, 40));
}

static void section_cnf(pbt::Src& s, pbt::Case& c) {
    TreeGen g{s};
    Tree t = g.boolean(1 + (int) s.below(4));
    if (has_const_zero_divisor(t)) c.discard();
    // comparisons with truth values
    sy::Condition e = buildc(t);
    if (s.chance(20)) {
        auto b = s.flip() ? sy::__true__() : sy::__false__();
        bool eq = s.flip();
        bool tv = sy::is_true(b);
        Tree n{NOT, 0, "", {t}};
        e = eq ? sy::Eq(e, b) : sy::Ne(e, b);
        if (eq != tv) t = n;
    }
    c << "condition: " << str(e) << "\n";
    sy::CNF cnf;
    try {
        cnf = sy::conjunctive_normal_form(e);
    } catch (sy::CNFException& x) {
        c.discard();
    }
    std::string text;
    size_t literals = 0;
    for (auto& cl : cnf) {
        text += "(";
        for (auto& l : cl) text += str(l) + " | ", ++literals;
        text += ") & ";
    }
    c << "cnf: " << text << "\n";
    for (auto& cl : cnf)
        for (auto& l : cl)
            if (SymEngine::is_a<SymEngine::And>(*l) || SymEngine::is_a<SymEngine::Or>(*l)) c.fail("a clause of the normal form has the literal " + str(l));
    for (int r = 0; r < 12; ++r) {
        Env env = random_env(s, g.names);
        I m;
        try {
            m = meaning(t, env);
        } catch (Undefined&) {
            continue;
        }
        bool all = true;
        try {
            for (auto& cl : cnf) {
                bool any = false;
                for (auto& l : cl) any |= value(l, env) != 0;
                all &= any;
            }
        } catch (EvalError&) {
            continue;
        }
        if (all != (m != 0)) c.fail(std::string("the normal form is ") + (all ? "true" : "false") + " where the condition is not, at " + show(env));
    }
    if (literals > 1) c.nontrivial(std::to_string(cnf.size()) + "/" + std::to_string(literals));
}

static void section_poly(pbt::Src& s, pbt::Case& c) {
    ExprGen g{s};
    g.names = {"i", "j", "N", "M"};
    g.funcs = false;
    g.divs = s.chance(15);
    g.minmax = s.chance(15);
    g.abss = false;
    auto e = g.expr(1 + (int) s.below(4));
    c << "expression: " << str(e) << "\n";
    sy::SymbolVec vars;
    // affine_coefficients names the symbols by position: ask in the order polynomial() uses
    for (auto& n : {"i", "j"})
        if (s.chance(80)) vars.push_back(sy::symbol(n));
    if (vars.empty()) vars.push_back(sy::symbol("i"));
    {
        sy::ExpressionSet order;
        for (auto& v : vars) order.insert(v);
        sy::SymbolVec sorted;
        for (auto& o : order) sorted.push_back(SymEngine::rcp_static_cast<const SymEngine::Symbol>(o));
        vars = sorted;
    }
    auto poly = sy::polynomial(e, vars);
    std::vector<Env> envs;
    for (int r = 0; r < 8; ++r) envs.push_back(random_env(s, g.names));
    if (!poly.is_null()) {
        auto& dict = poly->get_poly().get_dict();
        bool linear = true;
        for (auto& [exps, coeff] : dict) {
            int deg = 0;
            for (auto x : exps) deg += (int) x;
            linear &= deg <= 1;
        }
        for (auto& env : envs) {
            I want, sum = 0;
            if (!try_value(e, env, want)) continue;
            bool ok = true;
            for (auto& [exps, coeff] : dict) {
                I p;
                sy::Expression ce = coeff;
                if (!try_value(ce, env, p)) {
                    ok = false;
                    break;
                }
                for (size_t k = 0; k < exps.size(); ++k)
                    for (int q = 0; q < (int) exps[k]; ++q) p *= env.at(vars[k]->get_name());
                sum += p;
            }
            if (ok && sum != want) c.fail("the polynomial is " + istr(sum) + " instead of " + istr(want) + " at " + show(env));
        }
        auto co = sy::affine_coefficients(poly, vars);
        if (linear && co.empty()) c.fail("no coefficients for an affine expression");
        if (!linear && !co.empty()) c.fail("coefficients for an expression that is not affine");
        if (!co.empty()) {
            c.nontrivial(std::string("affine") + std::to_string(vars.size()));
            for (auto& [sym, ce] : co) c << "  " << str(sym) << ": " << str(ce) << "\n";
            for (auto& env : envs) {
                I want, sum = 0;
                if (!try_value(e, env, want)) continue;
                bool ok = true;
                for (auto& [sym, ce] : co) {
                    I p;
                    if (!try_value(ce, env, p)) {
                        ok = false;
                        break;
                    }
                    auto it = env.find(sym->get_name());
                    sum += it == env.end() ? p : p * it->second;
                }
                if (ok && sum != want) c.fail("the affine coefficients give " + istr(sum) + " instead of " + istr(want) + " at " + show(env));
            }
        }
        // inverse: applied to the value of the expression it gives the symbol back
        auto i = vars[0];
        auto inv = sy::inverse(e, i);
        if (!inv.is_null()) {
            c << "inverse in " << str(i) << ": " << str(inv) << "\n";
            for (auto& env : envs) {
                I v, back;
                if (!try_value(e, env, v) || v > 100000000 || v < -100000000) continue;
                Env at = env;
                at[i->get_name()] = (long) v;
                if (try_value(inv, at, back) && back != env.at(i->get_name()))
                    c.fail("inverse() gives " + istr(back) + " for the value " + istr(v) + " of the expression at " + show(env));
            }
        }
    }
    // division with remainder
    auto d = g.expr((int) s.below(3));
    if (!sy::eq(d, sy::zero()) && !sy::eq(sy::expand(d), sy::zero())) {
        std::pair<sy::Expression, sy::Expression> qr;
        try {
            qr = sy::polynomial_div(e, d);
        } catch (SymEngine::SymEngineException&) {
            return;
        }
        c << "divided by " << str(d) << ": " << str(qr.first) << " remainder " << str(qr.second) << "\n";
        for (auto& env : envs) {
            I ev, dv, q, r;
            if (!try_value(e, env, ev) || !try_value(d, env, dv) || !try_value(qr.first, env, q) || !try_value(qr.second, env, r)) continue;
            if (q * dv + r != ev) c.fail("quotient * divisor + remainder is " + istr(q * dv + r) + " instead of " + istr(ev) + " at " + show(env));
        }
        if (!sy::eq(qr.first, sy::zero())) c.nontrivial("div");
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Assumptions: parameters first, then variables whose bounds use the names before them
// ---------------------------------------------------------------------------------------------------------------
struct World {
    std::vector<std::string> params, vars; // in the order of definition
    sy::Assumptions assums;
    std::map<std::string, sy::Expression> lb, ub;
    std::map<std::string, long> step;
};
static World make_world(pbt::Src& s, const std::vector<std::string>& params, const std::vector<std::string>& vars, bool nested, bool steps, bool negatives) {
    World w;
    w.params = params;
    w.vars = vars;
    auto set = [&](const std::string& n, sy::Expression lb, sy::Expression ub, bool constant, long step) {
        sy::Assumption a(sy::symbol(n));
        a.lower_bound_deprecated(lb);
        a.upper_bound_deprecated(ub);
        a.add_lower_bound(lb);
        a.add_upper_bound(ub);
        a.tight_lower_bound(lb);
        a.tight_upper_bound(ub);
        a.constant(constant);
        if (step) a.map(sy::add(sy::symbol(n), sy::integer(step)));
        w.assums.insert({sy::symbol(n), a});
        w.lb[n] = lb;
        w.ub[n] = ub;
        w.step[n] = step;
    };
    for (auto& p : params) {
        long lo = negatives && s.chance(30) ? -(long) s.below(4) : (long) s.below(3);
        set(p, sy::integer(lo), sy::integer(lo + (long) s.below(4)), true, 0);
    }
    std::vector<std::string> before = params;
    for (auto& v : vars) {
        auto bound = [&](long small, bool upper) -> sy::Expression {
            sy::Expression r = sy::integer(small);
            if (nested && !before.empty() && s.chance(upper ? 50 : 20)) {
                r = sy::add(sy::symbol(before[s.below(before.size())]), sy::integer(s.sym(2)));
                if (upper && s.chance(25)) r = sy::min(r, sy::integer((long) s.below(6)));
                if (!upper && s.chance(40)) r = sy::max(r, sy::integer(s.sym(2)));
            }
            return r;
        };
        long lo = negatives && s.chance(30) ? -(long) s.below(5) : (long) s.below(3);
        auto lb = bound(lo, false);
        auto ub = bound(lo + (long) s.below(6), true);
        long st = steps && s.chance(70) ? 1 + (long) s.below(3) : 0;
        set(v, lb, ub, false, st);
        before.push_back(v);
    }
    return w;
}
static std::string show(const World& w) {
    std::string r;
    for (auto* l : {&w.params, &w.vars})
        for (auto& n : *l) r += "  " + n + " in [" + str(w.lb.at(n)) + ", " + str(w.ub.at(n)) + "]" + (w.step.at(n) ? " step " + std::to_string(w.step.at(n)) : "") + "\n";
    return r;
}
// all values the assumptions allow
static void enumerate(const World& w, const std::vector<std::string>& names, size_t k, Env& env, std::vector<Env>& out, size_t max) {
    if (out.size() >= max) return;
    if (k == names.size()) {
        out.push_back(env);
        return;
    }
    auto& n = names[k];
    I lo, hi;
    if (!try_value(w.lb.at(n), env, lo) || !try_value(w.ub.at(n), env, hi)) return;
    long st = w.step.at(n) ? w.step.at(n) : 1;
    // a step counts from a constant lower bound
    if (!SymEngine::is_a<SymEngine::Integer>(*w.lb.at(n)) && st != 1) st = 1;
    for (long v = (long) lo; v <= (long) hi; v += st) {
        env[n] = v;
        enumerate(w, names, k + 1, env, out, max);
    }
    env.erase(n);
}
static std::vector<Env> envs_of(const World& w, const Env& params, size_t max) {
    std::vector<Env> out;
    Env e = params;
    enumerate(w, w.vars, 0, e, out, max);
    return out;
}
static std::vector<Env> params_of(const World& w, size_t max) {
    std::vector<Env> out;
    Env e;
    enumerate(w, w.params, 0, e, out, max);
    return out;
}

static void section_bounds(pbt::Src& s, pbt::Case& c) {
    World w = make_world(s, {"N", "M"}, {"i", "j", "k"}, true, false, true);
    ExprGen g{s};
    auto e = g.expr(1 + (int) s.below(3));
    sy::SymbolSet params;
    for (auto& n : {"N", "M", "i"})
        if (s.chance(25)) params.insert(sy::symbol(n));
    c << show(w) << "expression: " << str(e) << "\nparameters:";
    for (auto& p : params) c << " " << str(p);
    c << "\n";
    std::vector<std::pair<std::string, sy::Expression>> lo, hi;
    lo.push_back({"minimum", sy::minimum(e, params, w.assums)});
    hi.push_back({"maximum", sy::maximum(e, params, w.assums)});
    for (bool tight : {false, true}) {
        lo.push_back({tight ? "minimum_new(tight)" : "minimum_new", sy::minimum_new(e, params, w.assums, tight)});
        hi.push_back({tight ? "maximum_new(tight)" : "maximum_new", sy::maximum_new(e, params, w.assums, tight)});
    }
    size_t known = 0;
    for (auto* l : {&lo, &hi})
        for (auto& [n, b] : *l) {
            c << "  " << n << ": " << str(b) << "\n";
            if (b.is_null()) continue;
            ++known;
            for (auto& a : sy::atoms(b))
                if (!params.count(a)) c.fail(n + " uses " + str(a) + ", which is no parameter");
        }
    size_t seen = 0;
    for (auto& p : params_of(w, 30))
        for (auto& env : envs_of(w, p, 150)) {
            I v, b;
            if (!try_value(e, env, v)) continue;
            ++seen;
            for (auto& [n, x] : lo)
                if (!x.is_null() && !SymEngine::is_a<SymEngine::Infty>(*x) && try_value(x, env, b) && b > v) c.fail(n + " is " + istr(b) + " but the value is " + istr(v) + " at " + show(env));
            for (auto& [n, x] : hi)
                if (!x.is_null() && !SymEngine::is_a<SymEngine::Infty>(*x) && try_value(x, env, b) && b < v) c.fail(n + " is " + istr(b) + " but the value is " + istr(v) + " at " + show(env));
        }
    if (known && seen > 1) c.nontrivial(std::to_string(known) + "/" + std::to_string(sy::atoms(e).size()));
}

static sy::Expression subscript(pbt::Src& s, ExprGen& g, const World& w) {
    auto lin = [&]() -> sy::Expression {
        sy::Expression r = sy::integer(s.chance(60) ? 0 : s.sym(4));
        for (auto& v : w.vars)
            if (s.chance(55)) r = sy::add(r, sy::mul(sy::integer(s.chance(60) ? 1 : s.sym(4)), sy::symbol(v)));
        if (s.chance(25)) r = sy::add(r, sy::symbol(w.params[s.below(w.params.size())]));
        return r;
    };
    switch (s.below(5)) {
        case 0: return g.expr(1 + (int) s.below(2));
        case 1: { // linearised
            sy::Expression st = s.flip() ? (sy::Expression) sy::integer(2 + (long) s.below(6)) : (sy::Expression) sy::symbol(w.params[s.below(w.params.size())]);
            if (s.chance(25)) st = sy::add(st, sy::integer((long) s.below(3)));
            auto r = sy::add(sy::mul(lin(), st), lin());
            return s.flip() ? sy::expand(r) : r;
        }
        case 2: {
            sy::Expression r = sy::div(lin(), sy::integer(2 + (long) s.below(3)));
            return s.chance(40) ? sy::add(r, lin()) : r;
        }
        case 3: return s.flip() ? sy::mod(lin(), sy::integer(2 + (long) s.below(3))) : sy::pow(sy::symbol(s.flip() ? w.vars[0] : w.params[0]), sy::integer(1 + (long) s.below(3)));
        default: return lin();
    }
}

static bool values(const sy::MultiExpression& m, const Env& env, std::vector<long>& out) {
    out.clear();
    for (auto& e : m) {
        I v;
        if (!try_value(e, env, v)) return false;
        out.push_back((long) v);
    }
    return true;
}

static void section_sets(pbt::Src& s, pbt::Case& c) {
    bool neg = s.chance(35);
    World w1 = make_world(s, {"N", "M"}, {"i", "j"}, s.flip(), s.flip(), neg);
    World w2 = w1;
    if (s.chance(50)) {
        w2 = make_world(s, {}, {"i", "j"}, false, s.flip(), neg);
        for (auto& p : w1.params) {
            w2.assums.insert({sy::symbol(p), w1.assums.at(sy::symbol(p))});
            w2.lb[p] = w1.lb[p];
            w2.ub[p] = w1.ub[p];
            w2.step[p] = 0;
        }
        w2.params = w1.params;
    }
    ExprGen g{s};
    g.names = {"i", "j", "N", "M"};
    g.sizes = false;
    size_t dims = 1 + s.below(2);
    sy::MultiExpression a, b;
    for (size_t d = 0; d < dims; ++d) {
        a.push_back(subscript(s, g, w1));
        b.push_back(s.chance(35) ? sy::add(a.back(), sy::integer(s.sym(2))) : subscript(s, g, w2));
    }
    c << "first:\n" << show(w1) << "  " << str(a) << "\nsecond:\n" << show(w2) << "  " << str(b) << "\n";
    bool disjoint = sy::is_disjoint(a, b, w1.assums, w2.assums);
    auto indvar = sy::symbol("i");
    bool inter = sy::maps::intersects(a, b, indvar, w1.assums, w2.assums);
    bool same_world = &w1 == &w2;
    (void) same_world;
    c << "is_disjoint: " << (disjoint ? "yes" : "no") << ", intersects: " << (inter ? "yes" : "no") << "\n";
    bool mono = sy::maps::is_monotonic(a[0], indvar, w1.assums);
    c << "is_monotonic of the first: " << (mono ? "yes" : "no") << "\n";
    if (disjoint || !inter || mono) c.nontrivial(std::string(disjoint ? "d" : "") + (inter ? "" : "n") + (mono ? "m" : "") + std::to_string(dims));
    for (auto& p : params_of(w1, 9)) {
        auto e1 = envs_of(w1, p, 60), e2 = envs_of(w2, p, 60);
        std::map<std::vector<long>, std::vector<const Env*>> img;
        std::vector<long> v;
        for (auto& env : e1)
            if (values(a, env, v)) img[v].push_back(&env);
        if (disjoint || !inter)
            for (auto& env : e2) {
                if (!values(b, env, v)) continue;
                auto it = img.find(v);
                if (it == img.end()) continue;
                for (auto* o : it->second) {
                    if (disjoint) c.fail("is_disjoint() but both have the same value at " + show(*o) + " and " + show(env));
                    if (!inter && o->at("i") != env.at("i")) c.fail("intersects() says no but both have the same value at " + show(*o) + " and " + show(env));
                }
            }
        if (mono) {
            // strictly increasing in i while everything else stays the same
            for (auto& x : e1)
                for (auto& y : e1) {
                    if (x.at("i") >= y.at("i") || x.at("j") != y.at("j")) continue;
                    I vx, vy;
                    if (try_value(a[0], x, vx) && try_value(a[0], y, vy) && vx >= vy) c.fail("is_monotonic() but the value does not grow from " + show(x) + " to " + show(y));
                }
        }
    }
}

static void section_subset(pbt::Src& s, pbt::Case& c) {
    // every value of the first, over all values the assumptions allow, is one of the second for some allowed values
    bool neg = s.chance(35), with_params = s.chance(40);
    std::vector<std::string> ps;
    if (with_params) ps.push_back("N");
    World w1 = make_world(s, ps, {"i", "j"}, s.flip(), s.flip(), neg), w2 = w1;
    if (!s.chance(30)) {
        // a parameter is one constant of the program: both sides assume the same of it
        w2 = make_world(s, {}, {"i", "j"}, false, s.flip(), neg);
        for (auto& p : w1.params) {
            w2.assums.insert({sy::symbol(p), w1.assums.at(sy::symbol(p))});
            w2.lb[p] = w1.lb[p];
            w2.ub[p] = w1.ub[p];
            w2.step[p] = 0;
        }
        w2.params = w1.params;
    }
    ExprGen g{s};
    g.names = {"i", "j"};
    if (with_params) g.names.push_back("N");
    World names = w1;
    if (!with_params) names.params = {"i"};
    size_t dims = 1 + s.below(2);
    sy::MultiExpression a, b;
    for (size_t d = 0; d < dims; ++d) {
        a.push_back(subscript(s, g, names));
        b.push_back(s.chance(50) ? a.back() : subscript(s, g, names));
        if (s.chance(20)) b.back() = sy::add(b.back(), sy::integer(s.sym(1)));
    }
    c << "first:\n" << show(w1) << "  " << str(a) << "\nsecond:\n" << show(w2) << "  " << str(b) << "\n";
    bool sub = sy::is_subset(a, b, w1.assums, w2.assums);
    c << "is_subset: " << (sub ? "yes" : "no") << "\n";
    if (!sub) return;
    std::set<std::vector<long>> img;
    std::vector<long> v;
    // only the symbols of the second count for it: N never depends on i, nor i on j
    World used = w2;
    std::set<std::string> need;
    for (auto& e : b)
        for (auto& x : sy::atoms(e)) need.insert(x->get_name());
    // a symbol that is only part of a bound takes every value between its own bounds
    for (auto n : {"i", "j"})
        if (!need.count(n)) used.step[n] = 0;
    for (auto n : {"j", "i"})
        if (need.count(n))
            for (auto& e : {w2.lb.at(n), w2.ub.at(n)})
                for (auto& x : sy::atoms(e)) need.insert(x->get_name());
    std::erase_if(used.vars, [&](auto& n) { return !need.count(n); });
    std::erase_if(used.params, [&](auto& n) { return !need.count(n); });
    size_t firsts = 0;
    for (auto& p : params_of(used, 40))
        for (auto& env : envs_of(used, p, 400))
            if (values(b, env, v)) img.insert(v);
    for (auto& p : params_of(w1, 40))
        for (auto& env : envs_of(w1, p, 400)) {
            ++firsts;
            if (values(a, env, v) && !img.count(v)) c.fail("is_subset() but the second never has the value of the first at " + show(env));
        }
    if (firsts) c.nontrivial(std::to_string(firsts) + "/" + std::to_string(dims));
}

static void section_series(pbt::Src& s, pbt::Case& c) {
    World w = make_world(s, {"N"}, {"j"}, false, false, true);
    World only = w;
    auto i = sy::symbol("i");
    sy::Expression e;
    ExprGen g{s};
    g.names = {"i", "N"};
    switch (s.below(4)) {
        case 0: e = sy::add(i, sy::integer(s.sym(3))); break;
        case 1: e = sy::add(sy::mul(sy::integer(s.sym(3)), i), s.flip() ? (sy::Expression) sy::integer(s.sym(3)) : (sy::Expression) sy::symbol("N")); break;
        case 2: e = sy::pow(s.flip() ? i : sy::symbol("N"), sy::integer(1 + (long) s.below(3))); break;
        default: e = g.expr(2);
    }
    long lo = s.sym(3), hi = lo + (long) s.below(6);
    bool known = s.chance(60);
    {
        sy::Assumption a(i);
        if (known) {
            a.lower_bound_deprecated(sy::integer(lo));
            a.upper_bound_deprecated(sy::integer(hi));
            a.add_lower_bound(sy::integer(lo));
            a.add_upper_bound(sy::integer(hi));
            w.assums.insert({i, a});
        }
    }
    c << show(w) << "  i in [" << lo << ", " << hi << "]" << (known ? "" : " (not stated)") << "\nupdate: i := " << str(e) << "\n";
    bool cont = sy::series::is_contiguous(e, i, w.assums), mono = sy::series::is_monotonic(e, i, w.assums);
    auto [ok, co] = sy::series::affine_int_coeffs(e, i, w.assums);
    c << "contiguous " << cont << " monotonic " << mono << "\n";
    if (cont || mono) c.nontrivial(std::string(cont ? "c" : "") + (mono ? "m" : ""));
    if (cont && !mono) c.fail("is_contiguous() without is_monotonic()");
    for (auto& p : params_of(w, 9))
        for (long v = lo; v <= hi; ++v) {
            Env env = p;
            env["i"] = v;
            I x, y;
            if (!try_value(e, env, x)) continue;
            if (cont && x != v + 1) c.fail("is_contiguous() but the step goes from " + std::to_string(v) + " to " + istr(x) + " at " + show(env));
            // a monotonic update never leads back (from a negative value a factor above 1 does: LoopAnalysisTest.Monotonic)
            if (mono && v >= 0 && x < v) c.fail("is_monotonic() but the step goes from " + std::to_string(v) + " back to " + istr(x) + " at " + show(env));
            // a monotonic update leads to larger values from larger values
            env["i"] = v + 1;
            if (mono && v < hi && try_value(e, env, y) && y <= x) c.fail("is_monotonic() but " + std::to_string(v) + " leads to " + istr(x) + " and " + std::to_string(v + 1) + " to " + istr(y) + " at " + show(p));
        }
    (void) ok;
    (void) co;
}

static void section_delinearize(pbt::Src& s, pbt::Case& c) {
    World w;
    auto setup = [&] {
        std::vector<std::string> params = {"N", "M"}, vars = {"i", "j", "k"};
        w.params = params;
        w.vars = vars;
        auto put = [&](const std::string& n, sy::Expression lb, sy::Expression ub, bool constant) {
            sy::Assumption a(sy::symbol(n));
            a.lower_bound_deprecated(lb);
            a.upper_bound_deprecated(ub);
            a.add_lower_bound(lb);
            a.add_upper_bound(ub);
            a.constant(constant);
            if (!constant) a.map(sy::add(sy::symbol(n), sy::one()));
            w.assums.insert({sy::symbol(n), a});
            w.lb[n] = lb;
            w.ub[n] = ub;
            w.step[n] = 0;
        };
        for (auto& p : params) put(p, sy::integer(1 + (long) s.below(2)), sy::integer(2 + (long) s.below(3)), true);
        for (auto& v : vars) {
            sy::Expression ub = s.flip() ? sy::sub(sy::symbol(params[s.below(2)]), sy::integer(1 + s.sym(1))) : (sy::Expression) sy::integer((long) s.below(5));
            put(v, sy::integer(s.chance(75) ? 0 : s.sym(2)), ub, false);
        }
    };
    setup();
    auto S = [](const char* n) { return (sy::Expression) sy::symbol(n); };
    sy::Expression n = s.chance(60) ? S("N") : (sy::Expression) sy::integer(2 + (long) s.below(5));
    sy::Expression m = s.chance(60) ? S("M") : (sy::Expression) sy::integer(2 + (long) s.below(5));
    if (s.chance(25)) m = sy::add(m, sy::integer((long) s.below(3)));
    auto inner = [&](const char* v) {
        sy::Expression r = S(v);
        if (s.chance(30)) r = sy::add(r, sy::integer(s.sym(2)));
        return r;
    };
    sy::Expression e;
    switch (s.below(4)) {
        case 0: e = sy::add(sy::mul(inner("i"), n), inner("j")); break;
        case 1: e = sy::add(sy::add(sy::mul(inner("i"), sy::mul(n, m)), sy::mul(inner("j"), m)), inner("k")); break;
        case 2: e = sy::add(sy::add(sy::mul(inner("i"), n), sy::mul(inner("j"), m)), inner("k")); break;
        default: e = sy::add(sy::mul(inner("i"), n), s.flip() ? inner("i") : sy::integer(s.sym(3)));
    }
    if (s.flip()) e = sy::expand(e);
    sy::MultiExpression strides;
    sy::MultiExpression in{e};
    auto dims = sy::delinearize(in, w.assums, strides);
    c << show(w) << "expression: " << str(e) << "\ndimensions: " << str(dims) << "\nstrides: " << str(strides) << "\n";
    if (dims.size() != strides.size()) c.fail("not one stride per dimension");
    if (dims.size() > 1) c.nontrivial(std::to_string(dims.size()));
    auto plain = sy::delinearize(in, w.assums);
    if (str(plain) != str(dims)) c.fail("both forms of delinearize() differ");
    for (auto& p : params_of(w, 16))
        for (auto& env : envs_of(w, p, 150)) {
            I want, sum = 0;
            if (!try_value(e, env, want)) continue;
            std::vector<I> dv, sv;
            for (size_t k = 0; k < dims.size(); ++k) {
                dv.push_back(value(dims[k], env));
                sv.push_back(value(strides[k], env));
                sum += dv[k] * sv[k];
            }
            if (sum != want) c.fail("the dimensions give " + istr(sum) + " instead of " + istr(want) + " at " + show(env));
            I rest = 0;
            for (size_t k = dims.size(); k-- > 1;) {
                rest += dv[k] * sv[k];
                if (rest < 0 || rest >= sv[k - 1]) c.fail("dimension " + std::to_string(k) + " leaves its stride at " + show(env));
            }
        }
}

static void section(pbt::Src& s, pbt::Case& c) {
    switch (s.weighted({30, 10, 18, 16, 24, 8, 8, 12})) {
        case 0: c.label("expressions"); return section_build(s, c);
        case 1: c.label("normal forms"); return section_cnf(s, c);
        case 2: c.label("polynomials"); return section_poly(s, c);
        case 3: c.label("bounds"); return section_bounds(s, c);
        case 4: c.label("sets"); return section_sets(s, c);
        case 5: c.label("subsets"); return section_subset(s, c);
        case 6: c.label("series"); return section_series(s, c);
        default: c.label("delinearisation"); return section_delinearize(s, c);
    }
}

static void prop(pbt::Src& s, pbt::Case& c) {
    try {
        section(s, c);
    } catch (std::exception& e) {
        // constants beyond a machine integer are rejected
        if (std::string(e.what()).find("larger than int") != std::string::npos) c.discard();
        throw;
    }
}

int main(int argc, char** argv) {
    pbt::Options o;
    o.id = CHECK_ID;
    o.rule = "the question had an answer that could be wrong: an expression with at least 3 defined evaluations, a normal form of 2 literals, affine coefficients, a bound, a positive disjointness / subset / monotonicity answer, or 2 dimensions";
    o.address_dependent = true;
    o.slow_is_inconclusive = true;
    o.case_timeout_s = 20;
    o.quick = 30000;
    o.thorough = 500000;
    return pbt::Runner(o, prop).main(argc, argv);
}
