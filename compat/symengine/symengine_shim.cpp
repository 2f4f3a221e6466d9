// Clean-room implementation behind symengine/_all.h (see the note there).
#include "symengine/_all.h"

#include <cmath>
#include <cstring>

namespace SymEngine {

void rcp_null_deref() { throw std::logic_error("SymEngine: null RCP dereferenced"); }

namespace {
hash_t mix(hash_t h, hash_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ULL;
    return h ? h : 1;
}
hash_t hstr(hash_t h, const std::string& s) {
    for (unsigned char c : s) h = mix(h, c);
    return h;
}
template<class T>
int cmp3(const T& a, const T& b) {
    return a < b ? -1 : (b < a ? 1 : 0);
}
int cmpvec(const vec_basic& a, const vec_basic& b) {
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    for (size_t i = 0; i < a.size(); ++i) {
        int c = a[i]->__cmp__(*b[i]);
        if (c) return c;
    }
    return 0;
}
bool eqvec(const vec_basic& a, const vec_basic& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!eq(*a[i], *b[i])) return false;
    return true;
}
template<class M>
bool eqmap(const M& a, const M& b) {
    if (a.size() != b.size()) return false;
    auto j = b.begin();
    for (auto& p : a) {
        if (!eq(*p.first, *j->first) || !eq(*p.second, *j->second)) return false;
        ++j;
    }
    return true;
}
struct StructLess {
    template<class T>
    bool operator()(const RCP<T>& a, const RCP<T>& b) const {
        return !eq(*a, *b) && a->__cmp__(*b) == -1;
    }
};
template<class M>
int cmpmap(const M& a, const M& b) {
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    std::map<RCP<const Basic>, RCP<const Basic>, StructLess> x(a.begin(), a.end()), y(b.begin(), b.end());
    auto j = y.begin();
    for (auto& p : x) {
        int c = p.first->__cmp__(*j->first);
        if (c) return c;
        c = p.second->__cmp__(*j->second);
        if (c) return c;
        ++j;
    }
    return 0;
}
std::string mstr(const integer_class& i) { return i.get_str(); }
} // namespace

/* ------------------------------------------------------------ statics */
RCP<const Integer> zero = make_rcp<const Integer>(integer_class(0)), one = make_rcp<const Integer>(integer_class(1)),
                   minus_one = make_rcp<const Integer>(integer_class(-1));
RCP<const Infty> Inf = make_rcp<const Infty>(1), NegInf = make_rcp<const Infty>(-1),
                 ComplexInf = make_rcp<const Infty>(0);
RCP<const NaN> Nan = make_rcp<const NaN>();
RCP<const Constant> E = make_rcp<const Constant>("E"), pi = make_rcp<const Constant>("pi");
RCP<const BooleanAtom> boolTrue = make_rcp<const BooleanAtom>(true), boolFalse = make_rcp<const BooleanAtom>(false);

#define X(C) \
    void C::accept(Visitor& v) const { v.visit(*this); }
SYMSHIM_CLASSES(X)
#undef X

/* ------------------------------------------------------------ numbers */
signed long int Integer::as_int() const {
    if (!i_.fits_slong_p()) throw SymEngineException("as_int: Integer larger than int");
    return i_.get_si();
}
unsigned long int Integer::as_uint() const {
    if (i_ < 0) throw SymEngineException("as_uint: negative Integer");
    if (!i_.fits_ulong_p()) throw SymEngineException("as_uint: Integer larger than uint");
    return i_.get_ui();
}
hash_t Integer::__hash__() const { return hstr(mix(1, type_code_), mstr(i_)); }
bool Integer::__eq__(const Basic& o) const {
    return is_a<Integer>(o) && static_cast<const Integer&>(o).i_ == i_;
}
int Integer::compare(const Basic& o) const { return cmp3(i_, static_cast<const Integer&>(o).i_); }
vec_basic Integer::get_args() const { return {}; }
hash_t Rational::__hash__() const { return hstr(mix(1, type_code_), q_.get_str()); }
bool Rational::__eq__(const Basic& o) const {
    return is_a<Rational>(o) && static_cast<const Rational&>(o).q_ == q_;
}
int Rational::compare(const Basic& o) const { return cmp3(q_, static_cast<const Rational&>(o).q_); }
vec_basic Rational::get_args() const { return {}; }
RCP<const Integer> Rational::get_num() const { return integer(integer_class(q_.get_num())); }
RCP<const Integer> Rational::get_den() const { return integer(integer_class(q_.get_den())); }
RCP<const Number> Rational::from_mpq(rational_class q) {
    q.canonicalize();
    if (q.get_den() == 1) return make_rcp<const Integer>(integer_class(q.get_num()));
    return make_rcp<const Rational>(q);
}
hash_t RealDouble::__hash__() const {
    uint64_t u;
    memcpy(&u, &i, 8);
    return mix(mix(1, type_code_), u);
}
bool RealDouble::__eq__(const Basic& o) const {
    return is_a<RealDouble>(o) && static_cast<const RealDouble&>(o).i == i;
}
int RealDouble::compare(const Basic& o) const { return cmp3(i, static_cast<const RealDouble&>(o).i); }
vec_basic RealDouble::get_args() const { return {}; }
hash_t Infty::__hash__() const { return mix(mix(1, type_code_), dir_ + 5); }
bool Infty::__eq__(const Basic& o) const { return is_a<Infty>(o) && static_cast<const Infty&>(o).dir_ == dir_; }
int Infty::compare(const Basic& o) const { return cmp3(dir_, static_cast<const Infty&>(o).dir_); }
vec_basic Infty::get_args() const { return {}; }
hash_t NaN::__hash__() const { return mix(1, type_code_); }
bool NaN::__eq__(const Basic& o) const { return is_a<NaN>(o); }
int NaN::compare(const Basic&) const { return 0; }
vec_basic NaN::get_args() const { return {}; }

RCP<const Integer> integer(int64_t i) { return make_rcp<const Integer>(integer_class((long) i)); }
RCP<const Integer> integer(uint64_t i) { return make_rcp<const Integer>(integer_class((unsigned long) i)); }
RCP<const Integer> integer(integer_class i) { return make_rcp<const Integer>(std::move(i)); }
RCP<const Number> rational(long n, long d) {
    if (d == 0) throw DivisionByZeroError("rational: division by zero");
    return Rational::from_mpq(rational_class(integer_class(n), integer_class(d)));
}
RCP<const RealDouble> real_double(double d) { return make_rcp<const RealDouble>(d); }
RCP<const Infty> infty(int n) { return n > 0 ? Inf : (n < 0 ? NegInf : ComplexInf); }

namespace {
bool exactnum(const Number& n) { return is_a<Integer>(n) || is_a<Rational>(n); }
rational_class toq(const Number& n) {
    if (is_a<Integer>(n)) return rational_class(static_cast<const Integer&>(n).as_integer_class());
    return static_cast<const Rational&>(n).as_rational_class();
}
double tod(const Number& n) {
    if (is_a<RealDouble>(n)) return static_cast<const RealDouble&>(n).i;
    return toq(n).get_d();
}
RCP<const Number> num(const RCP<const Basic>& b) { return rcp_static_cast<const Number>(b); }
} // namespace

RCP<const Number> addnum(const RCP<const Number>& a, const RCP<const Number>& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return Nan;
    if (is_a<Infty>(*a) || is_a<Infty>(*b)) {
        if (is_a<Infty>(*a) && is_a<Infty>(*b)) {
            int x = static_cast<const Infty&>(*a).dir(), y = static_cast<const Infty&>(*b).dir();
            if (x == y && x != 0) return a;
            return Nan;
        }
        return is_a<Infty>(*a) ? a : b;
    }
    if (exactnum(*a) && exactnum(*b)) return Rational::from_mpq(toq(*a) + toq(*b));
    return real_double(tod(*a) + tod(*b));
}
RCP<const Number> mulnum(const RCP<const Number>& a, const RCP<const Number>& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return Nan;
    if (is_a<Infty>(*a) || is_a<Infty>(*b)) {
        if (a->is_zero() || b->is_zero()) return Nan;
        auto sg = [](const Number& n) { return n.is_positive() ? 1 : (n.is_negative() ? -1 : 0); };
        return infty(sg(*a) * sg(*b));
    }
    if (exactnum(*a) && exactnum(*b)) return Rational::from_mpq(toq(*a) * toq(*b));
    return real_double(tod(*a) * tod(*b));
}
RCP<const Number> subnum(const RCP<const Number>& a, const RCP<const Number>& b) {
    return addnum(a, mulnum(minus_one, b));
}
static RCP<const Number> pownum(const RCP<const Number>& a, const RCP<const Integer>& b) {
    // b != 0, 1
    if (is_a<NaN>(*a)) return Nan;
    if (a->is_one()) return one;
    if (a->is_zero()) {
        if (b->is_negative()) return ComplexInf;
        return a;
    }
    if (is_a<Infty>(*a)) {
        if (b->is_negative()) return zero;
        int d = static_cast<const Infty&>(*a).dir();
        if (d < 0) return infty(mpz_even_p(b->as_integer_class().get_mpz_t()) ? 1 : -1);
        return a;
    }
    if (is_a<RealDouble>(*a)) return real_double(std::pow(tod(*a), b->as_integer_class().get_d()));
    if (a->is_minus_one()) return mpz_even_p(b->as_integer_class().get_mpz_t()) ? one : minus_one;
    integer_class ab = ::abs(b->as_integer_class());
    if (ab > 100000) throw SymEngineException("powint: exponent too large");
    unsigned long e = ab.get_ui();
    rational_class q = toq(*a);
    integer_class n, d;
    mpz_pow_ui(n.get_mpz_t(), q.get_num().get_mpz_t(), e);
    mpz_pow_ui(d.get_mpz_t(), q.get_den().get_mpz_t(), e);
    rational_class r = b->is_negative() ? rational_class(d, n) : rational_class(n, d);
    return Rational::from_mpq(r);
}

/* ------------------------------------------------------------ symbols etc */
hash_t Symbol::__hash__() const { return hstr(mix(1, type_code_), name_); }
bool Symbol::__eq__(const Basic& o) const { return is_a<Symbol>(o) && static_cast<const Symbol&>(o).name_ == name_; }
int Symbol::compare(const Basic& o) const { return cmp3(name_, static_cast<const Symbol&>(o).name_); }
vec_basic Symbol::get_args() const { return {}; }
hash_t Constant::__hash__() const { return hstr(mix(1, type_code_), name_); }
bool Constant::__eq__(const Basic& o) const {
    return is_a<Constant>(o) && static_cast<const Constant&>(o).name_ == name_;
}
int Constant::compare(const Basic& o) const { return cmp3(name_, static_cast<const Constant&>(o).name_); }
vec_basic Constant::get_args() const { return {}; }

hash_t Add::__hash__() const {
    hash_t h = mix(mix(1, type_code_), coef_->hash()), s = 0;
    for (auto& p : dict_) s += mix(p.first->hash(), p.second->hash());
    return mix(h, s);
}
bool Add::__eq__(const Basic& o) const {
    if (!is_a<Add>(o)) return false;
    auto& a = static_cast<const Add&>(o);
    return eq(*coef_, *a.coef_) && eqmap(dict_, a.dict_);
}
int Add::compare(const Basic& o) const {
    auto& a = static_cast<const Add&>(o);
    if (dict_.size() != a.dict_.size()) return dict_.size() < a.dict_.size() ? -1 : 1;
    int c = coef_->__cmp__(*a.coef_);
    return c ? c : cmpmap(dict_, a.dict_);
}
static RCP<const Basic> add_term(const RCP<const Basic>& t, const RCP<const Number>& c);
vec_basic Add::get_args() const {
    vec_basic r;
    if (!coef_->is_zero()) r.push_back(coef_);
    for (auto& p : dict_) r.push_back(add_term(p.first, p.second));
    return r;
}
hash_t Mul::__hash__() const {
    hash_t h = mix(mix(1, type_code_), coef_->hash());
    for (auto& p : dict_) h = mix(mix(h, p.first->hash()), p.second->hash());
    return h;
}
bool Mul::__eq__(const Basic& o) const {
    if (!is_a<Mul>(o)) return false;
    auto& a = static_cast<const Mul&>(o);
    return eq(*coef_, *a.coef_) && eqmap(dict_, a.dict_);
}
int Mul::compare(const Basic& o) const {
    auto& a = static_cast<const Mul&>(o);
    if (dict_.size() != a.dict_.size()) return dict_.size() < a.dict_.size() ? -1 : 1;
    int c = coef_->__cmp__(*a.coef_);
    return c ? c : cmpmap(dict_, a.dict_);
}
static RCP<const Basic> mkpow(const RCP<const Basic>& b, const RCP<const Basic>& e) {
    if (is_a<Integer>(*e) && static_cast<const Integer&>(*e).is_one()) return b;
    return make_rcp<const Pow>(b, e);
}
vec_basic Mul::get_args() const {
    vec_basic r;
    if (!coef_->is_one()) r.push_back(coef_);
    for (auto& p : dict_) r.push_back(mkpow(p.first, p.second));
    return r;
}
hash_t Pow::__hash__() const { return mix(mix(mix(1, type_code_), base_->hash()), exp_->hash()); }
bool Pow::__eq__(const Basic& o) const {
    if (!is_a<Pow>(o)) return false;
    auto& a = static_cast<const Pow&>(o);
    return eq(*base_, *a.base_) && eq(*exp_, *a.exp_);
}
int Pow::compare(const Basic& o) const {
    auto& a = static_cast<const Pow&>(o);
    int c = base_->__cmp__(*a.base_);
    return c ? c : exp_->__cmp__(*a.exp_);
}
vec_basic Pow::get_args() const { return {base_, exp_}; }

hash_t MultiArgFunction::__hash__() const {
    hash_t h = mix(1, type_code_);
    for (auto& a : arg_) h = mix(h, a->hash());
    return h;
}
bool MultiArgFunction::__eq__(const Basic& o) const {
    return type_code_ == o.type_code_ && eqvec(arg_, static_cast<const MultiArgFunction&>(o).arg_);
}
int MultiArgFunction::compare(const Basic& o) const {
    return cmpvec(arg_, static_cast<const MultiArgFunction&>(o).arg_);
}
hash_t FunctionSymbol::__hash__() const { return hstr(MultiArgFunction::__hash__(), name_); }
bool FunctionSymbol::__eq__(const Basic& o) const {
    return MultiArgFunction::__eq__(o) && static_cast<const FunctionSymbol&>(o).name_ == name_;
}
int FunctionSymbol::compare(const Basic& o) const {
    auto& f = static_cast<const FunctionSymbol&>(o);
    if (name_ != f.name_) return name_ < f.name_ ? -1 : 1;
    return cmpvec(arg_, f.arg_);
}
RCP<const Basic> FunctionSymbol::create(const vec_basic& a) const { return make_rcp<const FunctionSymbol>(name_, a); }
hash_t NamedFunction::__hash__() const { return hstr(MultiArgFunction::__hash__(), name_); }
bool NamedFunction::__eq__(const Basic& o) const {
    return MultiArgFunction::__eq__(o) && static_cast<const NamedFunction&>(o).name_ == name_;
}
int NamedFunction::compare(const Basic& o) const {
    auto& f = static_cast<const NamedFunction&>(o);
    if (name_ != f.name_) return name_ < f.name_ ? -1 : 1;
    return cmpvec(arg_, f.arg_);
}
RCP<const Basic> NamedFunction::create(const vec_basic& a) const { return make_rcp<const NamedFunction>(name_, a); }
RCP<const Basic> Max::create(const vec_basic& a) const { return max(a); }
RCP<const Basic> Min::create(const vec_basic& a) const { return min(a); }
RCP<const Basic> function_symbol(std::string n, const RCP<const Basic>& a) {
    return make_rcp<const FunctionSymbol>(n, a);
}
RCP<const Basic> function_symbol(std::string n, const vec_basic& a) { return make_rcp<const FunctionSymbol>(n, a); }

/* ------------------------------------------------------------ add */
static RCP<const Basic> mul_from_dict(const RCP<const Number>& c, map_basic_basic&& d);
static RCP<const Basic> add_term(const RCP<const Basic>& t, const RCP<const Number>& c) {
    if (c->is_one()) return t;
    if (is_a<Mul>(*t)) {
        map_basic_basic d = static_cast<const Mul&>(*t).get_dict();
        return mul_from_dict(mulnum(c, static_cast<const Mul&>(*t).get_coef()), std::move(d));
    }
    map_basic_basic d;
    if (is_a<Pow>(*t))
        d[static_cast<const Pow&>(*t).get_base()] = static_cast<const Pow&>(*t).get_exp();
    else
        d[t] = one;
    return make_rcp<const Mul>(c, std::move(d));
}
static void dict_add(umap_basic_num& d, const RCP<const Number>& c, const RCP<const Basic>& t) {
    auto it = d.find(t);
    if (it == d.end()) {
        if (!c->is_zero()) d[t] = c;
    } else {
        RCP<const Number> s = addnum(it->second, c);
        if (s->is_zero())
            d.erase(it);
        else
            it->second = s;
    }
}
static void coef_dict_add(RCP<const Number>& coef, umap_basic_num& d, const RCP<const Basic>& t) {
    if (is_a_Number(*t)) {
        coef = addnum(coef, num(t));
    } else if (is_a<Add>(*t)) {
        auto& a = static_cast<const Add&>(*t);
        for (auto& p : a.get_dict()) dict_add(d, p.second, p.first);
        coef = addnum(coef, a.get_coef());
    } else if (is_a<Mul>(*t) && !static_cast<const Mul&>(*t).get_coef()->is_one()) {
        auto& m = static_cast<const Mul&>(*t);
        map_basic_basic md = m.get_dict();
        dict_add(d, m.get_coef(), mul_from_dict(one, std::move(md)));
    } else {
        dict_add(d, one, t);
    }
}
static RCP<const Basic> add_from_dict(RCP<const Number> coef, umap_basic_num&& d) {
    // a term that is itself a sum with coefficient one is flattened
    for (auto it = d.begin(); it != d.end();) {
        if (is_a<Add>(*it->first) && it->second->is_one()) {
            RCP<const Basic> t = it->first;
            d.erase(it);
            coef_dict_add(coef, d, t);
            it = d.begin();
        } else
            ++it;
    }
    if (d.empty()) return coef;
    if (d.size() == 1 && coef->is_zero()) return add_term(d.begin()->first, d.begin()->second);
    return make_rcp<const Add>(coef, std::move(d));
}
RCP<const Basic> add(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    umap_basic_num d;
    RCP<const Number> c = zero;
    coef_dict_add(c, d, a);
    coef_dict_add(c, d, b);
    return add_from_dict(c, std::move(d));
}
RCP<const Basic> add(const vec_basic& v) {
    umap_basic_num d;
    RCP<const Number> c = zero;
    for (auto& x : v) coef_dict_add(c, d, x);
    return add_from_dict(c, std::move(d));
}
RCP<const Basic> neg(const RCP<const Basic>& a) { return mul(minus_one, a); }
RCP<const Basic> sub(const RCP<const Basic>& a, const RCP<const Basic>& b) { return add(a, mul(minus_one, b)); }

/* ------------------------------------------------------------ mul */
static RCP<const Basic> mul_from_dict(const RCP<const Number>& c, map_basic_basic&& d) {
    if (c->is_zero()) return c;
    if (d.empty()) return c;
    if (d.size() == 1 && c->is_one()) return mkpow(d.begin()->first, d.begin()->second);
    return make_rcp<const Mul>(c, std::move(d));
}
static void mdict_add(RCP<const Number>& coef, map_basic_basic& d, const RCP<const Basic>& e, const RCP<const Basic>& b) {
    auto it = d.find(b);
    RCP<const Basic> ne = it == d.end() ? e : add(it->second, e);
    if (it != d.end()) d.erase(it);
    if (is_a_Number(*ne) && num(ne)->is_zero()) return;
    if (is_a_Number(*b) && is_a<Integer>(*ne)) {
        RCP<const Integer> k = rcp_static_cast<const Integer>(ne);
        coef = mulnum(coef, k->is_one() ? num(b) : pownum(num(b), k));
        return;
    }
    if (is_a<Mul>(*b) && is_a<Integer>(*ne)) {
        auto& m = static_cast<const Mul&>(*b);
        RCP<const Integer> k = rcp_static_cast<const Integer>(ne);
        coef = mulnum(coef, k->is_one() ? m.get_coef() : pownum(m.get_coef(), k));
        for (auto& p : m.get_dict()) mdict_add(coef, d, mul(p.second, ne), p.first);
        return;
    }
    d[b] = ne;
}
static void mul_in(RCP<const Number>& coef, map_basic_basic& d, const RCP<const Basic>& a) {
    if (is_a_Number(*a)) {
        coef = mulnum(coef, num(a));
    } else if (is_a<Mul>(*a)) {
        auto& m = static_cast<const Mul&>(*a);
        coef = mulnum(coef, m.get_coef());
        for (auto& p : m.get_dict()) mdict_add(coef, d, p.second, p.first);
    } else if (is_a<Pow>(*a)) {
        mdict_add(coef, d, static_cast<const Pow&>(*a).get_exp(), static_cast<const Pow&>(*a).get_base());
    } else {
        mdict_add(coef, d, one, a);
    }
}
RCP<const Basic> mul(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    map_basic_basic d;
    RCP<const Number> c = one;
    mul_in(c, d, a);
    mul_in(c, d, b);
    return mul_from_dict(c, std::move(d));
}
RCP<const Basic> mul(const vec_basic& v) {
    map_basic_basic d;
    RCP<const Number> c = one;
    for (auto& x : v) mul_in(c, d, x);
    return mul_from_dict(c, std::move(d));
}
RCP<const Basic> div(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a_Number(*b) && num(b)->is_zero()) {
        if (is_a_Number(*a) && num(a)->is_zero()) return Nan;
        return ComplexInf;
    }
    return mul(a, pow(b, minus_one));
}
RCP<const Basic> pow(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a_Number(*b) && num(b)->is_zero()) return one;
    if (is_a<Integer>(*b) && static_cast<const Integer&>(*b).is_one()) return a;
    if (is_a_Number(*a)) {
        auto n = num(a);
        if (n->is_one()) return one;
        if (n->is_zero() && is_a_Number(*b)) {
            if (num(b)->is_positive()) return zero;
            if (num(b)->is_negative()) return ComplexInf;
        }
        if (is_a<Integer>(*b)) return pownum(n, rcp_static_cast<const Integer>(b));
        if (is_a<Rational>(*b) && is_a<Integer>(*a) && !n->is_negative()) {
            auto& q = static_cast<const Rational&>(*b).as_rational_class();
            integer_class root;
            if (q.get_den().fits_ulong_p() &&
                mpz_root(root.get_mpz_t(), static_cast<const Integer&>(*a).as_integer_class().get_mpz_t(),
                         q.get_den().get_ui()))
                return pow(integer(root), integer(integer_class(q.get_num())));
        }
        if (is_a<RealDouble>(*a) && is_a_Number(*b) && (exactnum(*num(b)) || is_a<RealDouble>(*b)))
            return real_double(std::pow(tod(*n), tod(*num(b))));
    }
    if (is_a<Integer>(*b)) {
        if (is_a<Pow>(*a)) {
            auto& p = static_cast<const Pow&>(*a);
            return pow(p.get_base(), mul(p.get_exp(), b));
        }
        if (is_a<Mul>(*a)) {
            map_basic_basic d;
            RCP<const Number> c = one;
            mdict_add(c, d, b, a);
            return mul_from_dict(c, std::move(d));
        }
    }
    return make_rcp<const Pow>(a, b);
}

/* ------------------------------------------------------------ max / min */
static RCP<const Basic> maxmin(const vec_basic& arg, bool mx) {
    bool set = false;
    RCP<const Number> best;
    set_basic rest;
    RCP<const Basic> absorbing;
    auto take = [&](const RCP<const Basic>& p) {
        if (is_a_Number(*p)) {
            if (is_a<NaN>(*p)) {
                absorbing = Nan;
                return;
            }
            if (!set)
                best = num(p), set = true;
            else {
                if (is_a<Infty>(*p) || is_a<Infty>(*best)) {
                    auto dir = [](const Number& n) { return is_a<Infty>(n) ? static_cast<const Infty&>(n).dir() : 0; };
                    bool better = mx ? dir(*num(p)) > dir(*best) : dir(*num(p)) < dir(*best);
                    if (better) best = num(p);
                } else {
                    auto diff = subnum(num(p), best);
                    if (mx ? diff->is_positive() : diff->is_negative()) best = num(p);
                }
            }
        } else
            rest.insert(p);
    };
    for (auto& p : arg) {
        if ((mx && is_a<Max>(*p)) || (!mx && is_a<Min>(*p)))
            for (auto& q : static_cast<const MultiArgFunction&>(*p).get_vec()) take(q);
        else
            take(p);
    }
    if (!absorbing.is_null()) return absorbing;
    if (set) rest.insert(best);
    vec_basic f(rest.begin(), rest.end());
    if (f.empty()) throw SymEngineException("Empty vec_basic passed to max/min!");
    if (f.size() == 1) return f[0];
    if (mx) return make_rcp<const Max>(std::move(f));
    return make_rcp<const Min>(std::move(f));
}
RCP<const Basic> max(const vec_basic& a) { return maxmin(a, true); }
RCP<const Basic> min(const vec_basic& a) { return maxmin(a, false); }

static RCP<const Basic> roundfn(const RCP<const Basic>& a, bool up) {
    if (is_a<Integer>(*a) || is_a<Infty>(*a) || is_a<NaN>(*a)) return a;
    if (is_a<Rational>(*a)) {
        auto& q = static_cast<const Rational&>(*a).as_rational_class();
        integer_class r;
        if (up)
            mpz_cdiv_q(r.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t());
        else
            mpz_fdiv_q(r.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t());
        return integer(r);
    }
    if (is_a<RealDouble>(*a)) {
        double d = static_cast<const RealDouble&>(*a).i;
        return integer(integer_class(up ? std::ceil(d) : std::floor(d)));
    }
    return make_rcp<const NamedFunction>(up ? "ceiling" : "floor", vec_basic{a});
}
RCP<const Basic> ceiling(const RCP<const Basic>& a) { return roundfn(a, true); }
RCP<const Basic> floor(const RCP<const Basic>& a) { return roundfn(a, false); }

/* ------------------------------------------------------------ logic */
RCP<const Boolean> Boolean::logical_not() const { return make_rcp<const Not>(rcp_from_this_cast<Boolean>()); }
hash_t BooleanAtom::__hash__() const { return mix(mix(1, type_code_), b_); }
bool BooleanAtom::__eq__(const Basic& o) const {
    return is_a<BooleanAtom>(o) && static_cast<const BooleanAtom&>(o).b_ == b_;
}
int BooleanAtom::compare(const Basic& o) const { return cmp3(b_, static_cast<const BooleanAtom&>(o).b_); }
vec_basic BooleanAtom::get_args() const { return {}; }
RCP<const Boolean> BooleanAtom::logical_not() const { return boolean(!b_); }

#define ANDOR(C, OPP)                                                                            \
    hash_t C::__hash__() const {                                                                 \
        hash_t h = mix(1, type_code_);                                                           \
        for (auto& a : c_) h = mix(h, a->hash());                                                \
        return h;                                                                                \
    }                                                                                            \
    vec_basic C::get_args() const { return vec_basic(c_.begin(), c_.end()); }                    \
    bool C::__eq__(const Basic& o) const { return is_a<C>(o) && eqvec(get_args(), o.get_args()); } \
    int C::compare(const Basic& o) const { return cmpvec(get_args(), o.get_args()); }            \
    RCP<const Boolean> C::logical_not() const {                                                  \
        set_boolean s;                                                                           \
        for (auto& a : c_) s.insert(a->logical_not());                                           \
        return make_rcp<const OPP>(s);                                                           \
    }
ANDOR(And, Or)
ANDOR(Or, And)
hash_t Not::__hash__() const { return mix(mix(1, type_code_), arg_->hash()); }
bool Not::__eq__(const Basic& o) const { return is_a<Not>(o) && eq(*arg_, *static_cast<const Not&>(o).arg_); }
int Not::compare(const Basic& o) const { return arg_->__cmp__(*static_cast<const Not&>(o).arg_); }
vec_basic Not::get_args() const { return {arg_}; }
RCP<const Boolean> Not::logical_not() const { return arg_; }

hash_t Relational::__hash__() const { return mix(mix(mix(1, type_code_), a_->hash()), b_->hash()); }
bool Relational::__eq__(const Basic& o) const {
    if (type_code_ != o.type_code_) return false;
    auto& r = static_cast<const Relational&>(o);
    return eq(*a_, *r.a_) && eq(*b_, *r.b_);
}
int Relational::compare(const Basic& o) const {
    auto& r = static_cast<const Relational&>(o);
    int c = a_->__cmp__(*r.a_);
    return c ? c : b_->__cmp__(*r.b_);
}
RCP<const Boolean> Equality::logical_not() const { return make_rcp<const Unequality>(a_, b_); }
RCP<const Boolean> Unequality::logical_not() const { return make_rcp<const Equality>(a_, b_); }
RCP<const Boolean> LessThan::logical_not() const { return make_rcp<const StrictLessThan>(b_, a_); }
RCP<const Boolean> StrictLessThan::logical_not() const { return make_rcp<const LessThan>(b_, a_); }

static RCP<const Boolean> andor(const set_boolean& s, bool is_and) {
    set_boolean args;
    for (auto& a : s) {
        if (is_a<BooleanAtom>(*a)) {
            bool v = static_cast<const BooleanAtom&>(*a).get_val();
            if (v != is_and) return boolean(!is_and);
            continue;
        }
        if (is_and && is_a<And>(*a)) {
            auto& c = static_cast<const And&>(*a).get_container();
            args.insert(c.begin(), c.end());
            continue;
        }
        if (!is_and && is_a<Or>(*a)) {
            auto& c = static_cast<const Or&>(*a).get_container();
            args.insert(c.begin(), c.end());
            continue;
        }
        args.insert(a);
    }
    for (auto& a : args)
        if (args.find(a->logical_not()) != args.end()) return boolean(!is_and);
    if (args.empty()) return boolean(is_and);
    if (args.size() == 1) return *args.begin();
    if (is_and) return make_rcp<const And>(args);
    return make_rcp<const Or>(args);
}
RCP<const Boolean> logical_and(const set_boolean& s) { return andor(s, true); }
RCP<const Boolean> logical_or(const set_boolean& s) { return andor(s, false); }
RCP<const Boolean> logical_not(const RCP<const Boolean>& s) { return s->logical_not(); }

RCP<const Boolean> Eq(const RCP<const Basic>& l) { return Eq(l, zero); }
RCP<const Boolean> Eq(const RCP<const Basic>& l, const RCP<const Basic>& r) {
    if (is_a<NaN>(*l) || is_a<NaN>(*r)) return boolFalse;
    if (eq(*l, *r)) return boolTrue;
    if ((is_a_Number(*l) && is_a_Number(*r)) || (is_a<BooleanAtom>(*l) && is_a<BooleanAtom>(*r))) {
        if (is_a_Number(*l) && is_a_Number(*r) && (is_a<RealDouble>(*l) || is_a<RealDouble>(*r)) &&
            !is_a<Infty>(*l) && !is_a<Infty>(*r))
            return boolean(tod(*num(l)) == tod(*num(r)));
        return boolFalse;
    }
    if (r->__cmp__(*l) == -1) return make_rcp<const Equality>(r, l);
    return make_rcp<const Equality>(l, r);
}
RCP<const Boolean> Ne(const RCP<const Basic>& l, const RCP<const Basic>& r) { return Eq(l, r)->logical_not(); }
static RCP<const Boolean> less(const RCP<const Basic>& l, const RCP<const Basic>& r, bool strict) {
    if (is_a<NaN>(*l) || is_a<NaN>(*r)) throw SymEngineException("Invalid NaN comparison.");
    if (eq(*l, *ComplexInf) || eq(*r, *ComplexInf)) throw SymEngineException("Invalid comparison of complex numbers.");
    if (eq(*l, *r)) return boolean(!strict);
    if (is_a_Boolean(*l) || is_a_Boolean(*r)) throw SymEngineException("Invalid comparison of Boolean objects.");
    if (is_a_Number(*l) && is_a_Number(*r)) {
        auto s = subnum(num(l), num(r));
        if (strict) return boolean(s->is_negative());
        return boolean(!s->is_positive());
    }
    if (strict) return make_rcp<const StrictLessThan>(l, r);
    return make_rcp<const LessThan>(l, r);
}
RCP<const Boolean> Le(const RCP<const Basic>& l, const RCP<const Basic>& r) { return less(l, r, false); }
RCP<const Boolean> Lt(const RCP<const Basic>& l, const RCP<const Basic>& r) { return less(l, r, true); }
RCP<const Boolean> Ge(const RCP<const Basic>& l, const RCP<const Basic>& r) { return less(r, l, false); }
RCP<const Boolean> Gt(const RCP<const Basic>& l, const RCP<const Basic>& r) { return less(r, l, true); }

/* ------------------------------------------------------------ traversal, subs */
void shim_traverse(const Basic& b, const std::function<void(const Basic&)>& f) {
    f(b);
    for (auto& a : b.get_args()) shim_traverse(*a, f);
}
bool has_symbol(const Basic& b, const Basic& x) {
    if (is_a<Symbol>(b) && eq(b, x)) return true;
    for (auto& a : b.get_args())
        if (has_symbol(*a, x)) return true;
    return false;
}
set_basic free_symbols(const Basic& b) { return atoms<Symbol>(b); }

static RCP<const Basic> rebuild(const RCP<const Basic>& a, const vec_basic& n) {
    switch (a->get_type_code()) {
        case SYMENGINE_ADD:
            return add(n);
        case SYMENGINE_MUL:
            return mul(n);
        case SYMENGINE_POW:
            return pow(n[0], n[1]);
        case SYMENGINE_AND:
        case SYMENGINE_OR: {
            set_boolean s;
            for (auto& x : n) s.insert(rcp_dynamic_cast<const Boolean>(x));
            return is_a<And>(*a) ? logical_and(s) : logical_or(s);
        }
        case SYMENGINE_NOT:
            return rcp_dynamic_cast<const Boolean>(n[0])->logical_not();
        case SYMENGINE_EQUALITY:
            return Eq(n[0], n[1]);
        case SYMENGINE_UNEQUALITY:
            return Ne(n[0], n[1]);
        case SYMENGINE_LESSTHAN:
            return Le(n[0], n[1]);
        case SYMENGINE_STRICTLESSTHAN:
            return Lt(n[0], n[1]);
        default:
            if (auto* f = dynamic_cast<const MultiArgFunction*>(a.get())) return f->create(n);
            return a;
    }
}
RCP<const Basic> subs(const RCP<const Basic>& a, const map_basic_basic& d) {
    auto it = d.find(a);
    if (it != d.end()) return it->second;
    vec_basic args = a->get_args();
    if (args.empty()) return a;
    bool changed = false;
    for (auto& x : args) {
        RCP<const Basic> n = subs(x, d);
        if (n.get() != x.get() && !eq(*n, *x)) changed = true;
        // coefficient * term of a sum: the bare term may be the key
        if (is_a<Add>(*a) && is_a<Mul>(*x) && eq(*n, *x)) {
            auto& m = static_cast<const Mul&>(*x);
            map_basic_basic md = m.get_dict();
            auto k = d.find(mul_from_dict(one, std::move(md)));
            if (k != d.end()) {
                n = mul(m.get_coef(), k->second);
                changed = true;
            }
        }
        x = n;
    }
    if (!changed) return a;
    return rebuild(a, args);
}
RCP<const Basic> simplify(const RCP<const Basic>& a) {
    vec_basic args = a->get_args();
    if (args.empty()) return a;
    bool changed = false;
    for (auto& x : args) {
        RCP<const Basic> n = simplify(x);
        if (!eq(*n, *x)) changed = true;
        x = n;
    }
    return changed ? rebuild(a, args) : a;
}

/* ------------------------------------------------------------ expand */
typedef std::vector<RCP<const Basic>> terms_t;
static terms_t terms(const RCP<const Basic>& e) {
    if (is_a<Add>(*e)) return e->get_args();
    return {e};
}
static RCP<const Basic> expand_product(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    terms_t x = terms(a), y = terms(b);
    if (x.size() == 1 && y.size() == 1) return mul(a, b);
    vec_basic r;
    for (auto& p : x)
        for (auto& q : y) r.push_back(mul(p, q));
    return add(r);
}
RCP<const Basic> expand(const RCP<const Basic>& a, bool deep) {
    if (is_a<Add>(*a)) {
        vec_basic r;
        for (auto& x : a->get_args()) r.push_back(expand(x, deep));
        return add(r);
    }
    if (is_a<Mul>(*a)) {
        RCP<const Basic> r = static_cast<const Mul&>(*a).get_coef();
        for (auto& p : static_cast<const Mul&>(*a).get_dict()) r = expand_product(r, expand(mkpow(p.first, p.second), deep));
        return r;
    }
    if (is_a<Pow>(*a)) {
        auto& p = static_cast<const Pow&>(*a);
        RCP<const Basic> b = deep ? expand(p.get_base(), deep) : p.get_base();
        if (is_a<Integer>(*p.get_exp()) && is_a<Add>(*b)) {
            auto& k = static_cast<const Integer&>(*p.get_exp());
            bool neg = k.is_negative();
            integer_class n = ::abs(k.as_integer_class());
            if (n > 64) return pow(b, p.get_exp());
            RCP<const Basic> r = one;
            for (unsigned long i = 0; i < n.get_ui(); ++i) r = expand_product(r, b);
            return neg ? pow(r, minus_one) : r;
        }
        return pow(b, p.get_exp());
    }
    return a;
}
void as_numer_denom(const RCP<const Basic>& x, const Ptr<RCP<const Basic>>& n, const Ptr<RCP<const Basic>>& d) {
    if (is_a<Rational>(*x)) {
        *n = static_cast<const Rational&>(*x).get_num();
        *d = static_cast<const Rational&>(*x).get_den();
    } else if (is_a<Mul>(*x)) {
        RCP<const Basic> nn = one, dd = one;
        for (auto& a : x->get_args()) {
            RCP<const Basic> an, ad;
            as_numer_denom(a, outArg(an), outArg(ad));
            nn = mul(nn, an);
            dd = mul(dd, ad);
        }
        *n = nn;
        *d = dd;
    } else if (is_a<Add>(*x)) {
        RCP<const Basic> nn = zero, dd = one;
        for (auto& a : x->get_args()) {
            RCP<const Basic> an, ad;
            as_numer_denom(a, outArg(an), outArg(ad));
            if (eq(*ad, *dd)) {
                nn = add(nn, an);
            } else {
                nn = add(mul(nn, ad), mul(an, dd));
                dd = mul(dd, ad);
            }
        }
        *n = nn;
        *d = dd;
    } else if (is_a<Pow>(*x)) {
        auto& p = static_cast<const Pow&>(*x);
        RCP<const Basic> bn, bd;
        as_numer_denom(p.get_base(), outArg(bn), outArg(bd));
        if (is_a_Number(*p.get_exp()) && num(p.get_exp())->is_negative()) {
            *n = pow(bd, neg(p.get_exp()));
            *d = pow(bn, neg(p.get_exp()));
        } else {
            *n = pow(bn, p.get_exp());
            *d = pow(bd, p.get_exp());
        }
    } else {
        *n = x;
        *d = one;
    }
}

/* ------------------------------------------------------------ polynomials */
hash_t MExprPoly::__hash__() const {
    hash_t h = mix(1, type_code_);
    for (auto& p : d_.dict_) {
        for (int e : p.first) h = mix(h, e);
        h = mix(h, p.second.get_basic()->hash());
    }
    return h;
}
bool MExprPoly::__eq__(const Basic& o) const { return this == &o; }
int MExprPoly::compare(const Basic& o) const { return cmp3<const void*>(this, &o); }
vec_basic MExprPoly::get_args() const { return {}; }

typedef std::map<vec_int, Expression> pdict;
static void padd(pdict& d, const vec_int& e, const Expression& c) {
    auto it = d.find(e);
    if (it == d.end()) {
        if (c != Expression(0)) d.emplace(e, c);
    } else {
        Expression s = it->second + c;
        if (s == Expression(0))
            d.erase(it);
        else
            it->second = s;
    }
}
static pdict pmul(const pdict& a, const pdict& b, size_t n) {
    pdict r;
    for (auto& x : a)
        for (auto& y : b) {
            vec_int e(n);
            for (size_t i = 0; i < n; ++i) e[i] = x.first[i] + y.first[i];
            padd(r, e, x.second * y.second);
        }
    return r;
}
static pdict pconv(const RCP<const Basic>& e, const set_basic& gens) {
    size_t n = gens.size();
    pdict r;
    if (is_a<Add>(*e)) {
        for (auto& a : e->get_args())
            for (auto& p : pconv(a, gens)) padd(r, p.first, p.second);
        return r;
    }
    if (is_a<Mul>(*e)) {
        r.emplace(vec_int(n, 0), Expression(1));
        for (auto& a : e->get_args()) r = pmul(r, pconv(a, gens), n);
        return r;
    }
    if (is_a<Pow>(*e)) {
        auto& p = static_cast<const Pow&>(*e);
        if (is_a<Integer>(*p.get_exp())) {
            auto& k = static_cast<const Integer&>(*p.get_exp());
            if (k.is_positive() && k.as_int() <= 64) {
                pdict b = pconv(p.get_base(), gens);
                r.emplace(vec_int(n, 0), Expression(1));
                for (long i = 0; i < k.as_int(); ++i) r = pmul(r, b, n);
                return r;
            }
        }
    }
    auto it = gens.find(e);
    vec_int ex(n, 0);
    if (it != gens.end()) {
        ex[std::distance(gens.begin(), it)] = 1;
        padd(r, ex, Expression(1));
    } else
        padd(r, ex, Expression(e));
    return r;
}
RCP<const MExprPoly> shim_mpoly(const RCP<const Basic>& e, const set_basic& gens) {
    MExprDict d;
    d.vec_size = gens.size();
    d.dict_ = pconv(e, gens);
    return make_rcp<const MExprPoly>(gens, d);
}

/* ------------------------------------------------------------ printing */
std::string Basic::__str__() const {
    StrPrinter p;
    return p.apply(*this);
}
std::string StrPrinter::apply(const RCP<const Basic>& b) { return apply(*b); }
std::string StrPrinter::apply(const Basic& b) {
    b.accept(*this);
    return str_;
}
std::string StrPrinter::apply(const vec_basic& v) {
    std::string r;
    for (size_t i = 0; i < v.size(); ++i) r += (i ? ", " : "") + apply(v[i]);
    return r;
}
PrecedenceEnum StrPrinter::precedence(const Basic& b) {
    switch (b.get_type_code()) {
        case SYMENGINE_ADD:
        case SYMENGINE_RATIONAL:
            return PrecedenceEnum::Add;
        case SYMENGINE_MUL:
            return PrecedenceEnum::Mul;
        case SYMENGINE_POW:
            return PrecedenceEnum::Pow;
        case SYMENGINE_INTEGER:
        case SYMENGINE_REAL_DOUBLE:
            return static_cast<const Number&>(b).is_negative() ? PrecedenceEnum::Mul : PrecedenceEnum::Atom;
        case SYMENGINE_EQUALITY:
        case SYMENGINE_UNEQUALITY:
        case SYMENGINE_LESSTHAN:
        case SYMENGINE_STRICTLESSTHAN:
            return PrecedenceEnum::Relational;
        default:
            return PrecedenceEnum::Atom;
    }
}
std::string StrPrinter::parenthesizeLT(const RCP<const Basic>& x, PrecedenceEnum p) {
    return precedence(*x) < p ? parenthesize(apply(x)) : apply(x);
}
std::string StrPrinter::parenthesizeLE(const RCP<const Basic>& x, PrecedenceEnum p) {
    return precedence(*x) <= p ? parenthesize(apply(x)) : apply(x);
}
void StrPrinter::bvisit(const Basic&) { throw SymEngineException("StrPrinter: not supported"); }
void StrPrinter::bvisit(const Integer& x) { str_ = mstr(x.as_integer_class()); }
void StrPrinter::bvisit(const Rational& x) { str_ = x.as_rational_class().get_str(); }
void StrPrinter::bvisit(const RealDouble& x) {
    std::ostringstream o;
    o.precision(17);
    o << x.i;
    str_ = o.str();
    // shortest representation that reads back the same value
    for (int p = 1; p < 17; ++p) {
        std::ostringstream q;
        q.precision(p);
        q << x.i;
        if (std::strtod(q.str().c_str(), nullptr) == x.i) {
            str_ = q.str();
            break;
        }
    }
    if (str_.find('.') == std::string::npos && str_.find('e') == std::string::npos) str_ += ".0";
}
void StrPrinter::bvisit(const Infty& x) { str_ = x.is_positive_infinity() ? "oo" : x.is_negative_infinity() ? "-oo" : "zoo"; }
void StrPrinter::bvisit(const NaN&) { str_ = "nan"; }
void StrPrinter::bvisit(const Symbol& x) { str_ = x.get_name(); }
void StrPrinter::bvisit(const Constant& x) { str_ = x.get_name(); }
void StrPrinter::bvisit(const Add& x) {
    std::ostringstream o;
    bool first = true;
    std::map<RCP<const Basic>, RCP<const Number>, StructLess> d(x.get_dict().begin(), x.get_dict().end());
    if (!x.get_coef()->is_zero()) {
        o << apply(x.get_coef());
        first = false;
    }
    for (auto& p : d) {
        std::string t;
        if (p.second->is_one())
            t = parenthesizeLT(p.first, PrecedenceEnum::Add);
        else if (p.second->is_minus_one())
            t = "-" + parenthesizeLT(p.first, PrecedenceEnum::Mul);
        else
            t = parenthesizeLT(p.second, PrecedenceEnum::Mul) + print_mul() + parenthesizeLT(p.first, PrecedenceEnum::Mul);
        if (!first) {
            if (t[0] == '-')
                o << " - " << t.substr(1);
            else
                o << " + " << t;
        } else {
            o << t;
            first = false;
        }
    }
    str_ = o.str();
}
void StrPrinter::bvisit(const Mul& x) {
    std::ostringstream o, o2;
    bool nm = false;
    unsigned den = 0;
    if (x.get_coef()->is_minus_one()) {
        o << "-";
    } else if (!x.get_coef()->is_one()) {
        o << parenthesizeLT(x.get_coef(), PrecedenceEnum::Mul) << print_mul();
        nm = true;
    }
    std::map<RCP<const Basic>, RCP<const Basic>, StructLess> d(x.get_dict().begin(), x.get_dict().end());
    for (auto& p : d) {
        if ((is_a<Integer>(*p.second) || is_a<Rational>(*p.second)) && num(p.second)->is_negative()) {
            if (eq(*p.second, *minus_one))
                o2 << parenthesizeLT(p.first, PrecedenceEnum::Mul);
            else
                _print_pow(o2, p.first, neg(p.second));
            o2 << print_mul();
            den++;
        } else {
            if (eq(*p.second, *one))
                o << parenthesizeLT(p.first, PrecedenceEnum::Mul);
            else
                _print_pow(o, p.first, p.second);
            o << print_mul();
            nm = true;
        }
    }
    if (!nm) o << "1" << print_mul();
    std::string s = o.str();
    s = s.substr(0, s.size() - 1);
    if (den) {
        std::string s2 = o2.str();
        s2 = s2.substr(0, s2.size() - 1);
        str_ = den > 1 ? s + "/" + parenthesize(s2) : s + "/" + s2;
    } else
        str_ = s;
}
void StrPrinter::_print_pow(std::ostringstream& o, const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (eq(*a, *E)) {
        o << "exp(" << apply(b) << ")";
    } else if (eq(*b, *rational(1, 2))) {
        o << "sqrt(" << apply(a) << ")";
    } else {
        o << parenthesizeLE(a, PrecedenceEnum::Pow);
        o << "**";
        o << parenthesizeLE(b, PrecedenceEnum::Pow);
    }
}
void StrPrinter::bvisit(const Pow& x) {
    std::ostringstream o;
    _print_pow(o, x.get_base(), x.get_exp());
    str_ = o.str();
}
void StrPrinter::bvisit(const NamedFunction& x) { str_ = x.get_name() + parenthesize(apply(x.get_args())); }
void StrPrinter::bvisit(const FunctionSymbol& x) { str_ = x.get_name() + parenthesize(apply(x.get_args())); }
void StrPrinter::bvisit(const Max& x) { str_ = "max" + parenthesize(apply(x.get_args())); }
void StrPrinter::bvisit(const Min& x) { str_ = "min" + parenthesize(apply(x.get_args())); }
void StrPrinter::bvisit(const BooleanAtom& x) { str_ = x.get_val() ? "True" : "False"; }
void StrPrinter::bvisit(const And& x) { str_ = "And" + parenthesize(apply(x.get_args())); }
void StrPrinter::bvisit(const Or& x) { str_ = "Or" + parenthesize(apply(x.get_args())); }
void StrPrinter::bvisit(const Not& x) { str_ = "Not" + parenthesize(apply(*x.get_arg())); }
void StrPrinter::bvisit(const Equality& x) { str_ = apply(x.get_arg1()) + " == " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const Unequality& x) { str_ = apply(x.get_arg1()) + " != " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const LessThan& x) { str_ = apply(x.get_arg1()) + " <= " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const StrictLessThan& x) { str_ = apply(x.get_arg1()) + " < " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const MExprPoly&) { str_ = "poly"; }

void CodePrinter::bvisit(const Rational& x) {
    str_ = mstr(x.as_rational_class().get_num()) + ".0/" + mstr(x.as_rational_class().get_den()) + ".0";
}
static std::string nested(CodePrinter& p, const vec_basic& a, const char* f) {
    std::string s = p.apply(a[0]);
    for (size_t i = 1; i < a.size(); ++i) s = std::string(f) + "(" + s + ", " + p.apply(a[i]) + ")";
    return s;
}
void CodePrinter::bvisit(const Max& x) {
    std::string s = nested(*this, x.get_args(), "fmax");
    str_ = s;
}
void CodePrinter::bvisit(const Min& x) {
    std::string s = nested(*this, x.get_args(), "fmin");
    str_ = s;
}

/* ------------------------------------------------------------ parsing */
namespace {
struct Parser {
    const std::string& s;
    size_t i = 0;
    explicit Parser(const std::string& t) : s(t) {}
    void ws() {
        while (i < s.size() && isspace((unsigned char) s[i])) ++i;
    }
    [[noreturn]] void fail() { throw ParseError("Parsing Unsuccessful"); }
    bool op(const char* t) {
        ws();
        size_t n = strlen(t);
        if (s.compare(i, n, t) == 0) {
            i += n;
            return true;
        }
        return false;
    }
    RCP<const Boolean> B(const RCP<const Basic>& x) {
        if (!is_a_Boolean(*x)) throw ParseError("Expected Boolean");
        return rcp_static_cast<const Boolean>(x);
    }
    RCP<const Basic> p_or() {
        auto a = p_and();
        while (true) {
            if (op("||") || op("|")) {
                auto b = p_and();
                a = logical_or({B(a), B(b)});
            } else
                return a;
        }
    }
    RCP<const Basic> p_and() {
        auto a = p_rel();
        while (true) {
            if (op("&&") || op("&")) {
                auto b = p_rel();
                a = logical_and({B(a), B(b)});
            } else
                return a;
        }
    }
    RCP<const Basic> p_rel() {
        auto a = p_sum();
        while (true) {
            ws();
            if (op("=="))
                a = Eq(a, p_sum());
            else if (op("!="))
                a = Ne(a, p_sum());
            else if (op("<="))
                a = Le(a, p_sum());
            else if (op(">="))
                a = Ge(a, p_sum());
            else if (op("<"))
                a = Lt(a, p_sum());
            else if (op(">"))
                a = Gt(a, p_sum());
            else
                return a;
        }
    }
    RCP<const Basic> p_sum() {
        auto a = p_term();
        while (true) {
            if (op("+"))
                a = add(a, p_term());
            else if (op("-"))
                a = sub(a, p_term());
            else
                return a;
        }
    }
    bool peek_pow() {
        ws();
        return s.compare(i, 2, "**") == 0;
    }
    RCP<const Basic> p_term() {
        auto a = p_unary();
        while (true) {
            if (!peek_pow() && op("*"))
                a = mul(a, p_unary());
            else if (op("/"))
                a = div(a, p_unary());
            else
                return a;
        }
    }
    RCP<const Basic> p_unary() {
        if (op("-")) return neg(p_unary());
        if (op("+")) return p_unary();
        return p_pow();
    }
    RCP<const Basic> p_pow() {
        auto a = p_atom();
        if (op("**") || op("^") || op("@")) return pow(a, p_unary());
        return a;
    }
    RCP<const Basic> p_atom() {
        ws();
        if (i >= s.size()) fail();
        if (op("(")) {
            auto a = p_or();
            if (!op(")")) fail();
            return a;
        }
        if (op("~") || (s[i] == '!' && s.compare(i, 2, "!=") != 0 && op("!"))) return B(p_atom())->logical_not();
        unsigned char c = s[i];
        if (isdigit(c) || c == '.') {
            size_t b = i;
            bool dot = false, ex = false;
            while (i < s.size() && isdigit((unsigned char) s[i])) ++i;
            if (i < s.size() && s[i] == '.') {
                dot = true;
                ++i;
                while (i < s.size() && isdigit((unsigned char) s[i])) ++i;
            }
            if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
                size_t j = i + 1;
                if (j < s.size() && (s[j] == '+' || s[j] == '-')) ++j;
                if (j < s.size() && isdigit((unsigned char) s[j])) {
                    ex = true;
                    i = j;
                    while (i < s.size() && isdigit((unsigned char) s[i])) ++i;
                }
            }
            std::string t = s.substr(b, i - b);
            RCP<const Basic> n;
            if (dot || ex) {
                if (t == ".") fail();
                n = real_double(std::strtod(t.c_str(), nullptr));
            } else
                n = integer(integer_class(t));
            // implicit multiplication "2x"
            if (i < s.size() && (isalpha((unsigned char) s[i]) || s[i] == '_')) return mul(n, p_atom());
            return n;
        }
        if (isalpha(c) || c == '_' || c >= 0x80) {
            size_t b = i;
            while (i < s.size() && (isalnum((unsigned char) s[i]) || s[i] == '_' || (unsigned char) s[i] >= 0x80)) ++i;
            // docc's GPU index symbols ("threadIdx.x") are printed as they are
            if (i + 1 < s.size() && s[i] == '.' && isalpha((unsigned char) s[i + 1])) {
                ++i;
                while (i < s.size() && (isalnum((unsigned char) s[i]) || s[i] == '_')) ++i;
            }
            std::string n = s.substr(b, i - b);
            ws();
            if (i < s.size() && s[i] == '(') {
                ++i;
                vec_basic a;
                if (!op(")")) {
                    do a.push_back(p_or());
                    while (op(","));
                    if (!op(")")) fail();
                }
                return call(n, a);
            }
            if (n == "e" || n == "E") return E;
            if (n == "pi") return pi;
            if (n == "oo" || n == "inf") return Inf;
            if (n == "zoo") return ComplexInf;
            if (n == "nan") return Nan;
            if (n == "True") return boolTrue;
            if (n == "False") return boolFalse;
            return symbol(n);
        }
        fail();
    }
    RCP<const Basic> call(const std::string& n, const vec_basic& a) {
        if (n == "max") return max(a);
        if (n == "min") return min(a);
        if (n == "And" || n == "Or") {
            set_boolean st;
            for (auto& x : a) st.insert(B(x));
            return n == "And" ? logical_and(st) : logical_or(st);
        }
        if (a.size() == 1) {
            if (n == "Not") return B(a[0])->logical_not();
            if (n == "sqrt") return pow(a[0], rational(1, 2));
            if (n == "cbrt") return pow(a[0], rational(1, 3));
            if (n == "exp") return pow(E, a[0]);
            if (n == "ceiling" || n == "ceil") return ceiling(a[0]);
            if (n == "floor") return floor(a[0]);
            if (n == "abs" || n == "sin" || n == "cos" || n == "tan" || n == "log" || n == "sign")
                return make_rcp<const NamedFunction>(n, a);
        }
        if (a.size() == 2) {
            if (n == "pow") return pow(a[0], a[1]);
            if (n == "Eq") return Eq(a[0], a[1]);
            if (n == "Ne") return Ne(a[0], a[1]);
            if (n == "Le") return Le(a[0], a[1]);
            if (n == "Lt") return Lt(a[0], a[1]);
            if (n == "Ge") return Ge(a[0], a[1]);
            if (n == "Gt") return Gt(a[0], a[1]);
        }
        return function_symbol(n, a);
    }
};
} // namespace
RCP<const Basic> parse(const std::string& str, bool) {
    Parser p(str);
    auto r = p.p_or();
    p.ws();
    if (p.i != str.size()) p.fail();
    return r;
}

} // namespace SymEngine
