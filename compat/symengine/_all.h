#pragma once
// Clean-room, minimal re-implementation of the part of SymEngine's public interface that docc uses
// (the sandbox has no SymEngine and no network).  It reproduces the documented canonical forms, the
// evaluation rules and the printer / parser syntax docc relies on.  See DESIGN.md, "SymEngine".
#include <gmpxx.h>

#include <algorithm>
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace SymEngine {

typedef uint64_t hash_t;

class SymEngineException : public std::exception {
    std::string msg_;

public:
    explicit SymEngineException(const std::string& m) : msg_(m) {}
    const char* what() const noexcept override { return msg_.c_str(); }
};
class NotImplementedError : public SymEngineException {
public:
    explicit NotImplementedError(const std::string& m) : SymEngineException(m) {}
};
class DivisionByZeroError : public SymEngineException {
public:
    explicit DivisionByZeroError(const std::string& m) : SymEngineException(m) {}
};
class DomainError : public SymEngineException {
public:
    explicit DomainError(const std::string& m) : SymEngineException(m) {}
};
class ParseError : public SymEngineException {
public:
    explicit ParseError(const std::string& m) : SymEngineException(m) {}
};

/* ---------------------------------------------------------------- RCP */
enum ENull { null };

[[noreturn]] void rcp_null_deref();

template<class T>
class RCP {
    T* p_;
    template<class U>
    friend class RCP;

    void inc() const {
        if (p_) p_->refcount_.fetch_add(1, std::memory_order_relaxed);
    }
    void dec() {
        if (p_ && p_->refcount_.fetch_sub(1, std::memory_order_acq_rel) == 1) delete p_;
    }

public:
    RCP() : p_(nullptr) {}
    RCP(ENull) : p_(nullptr) {}
    explicit RCP(T* p) : p_(p) { inc(); }
    RCP(const RCP& o) : p_(o.p_) { inc(); }
    RCP(RCP&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    RCP(const RCP<U>& o) : p_(o.p_) {
        inc();
    }
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    RCP(RCP<U>&& o) noexcept : p_(o.p_) {
        o.p_ = nullptr;
    }
    ~RCP() { dec(); }
    RCP& operator=(const RCP& o) {
        o.inc();
        dec();
        p_ = o.p_;
        return *this;
    }
    RCP& operator=(RCP&& o) noexcept {
        std::swap(p_, o.p_);
        return *this;
    }
    T* operator->() const {
        if (!p_) rcp_null_deref();
        return p_;
    }
    T& operator*() const {
        if (!p_) rcp_null_deref();
        return *p_;
    }
    T* get() const { return p_; }
    T* ptr() const { return p_; }
    T* getRawPtr() const { return p_; }
    bool is_null() const { return p_ == nullptr; }
    void reset() {
        dec();
        p_ = nullptr;
    }
    template<class U>
    bool operator==(const RCP<U>& o) const {
        return (const void*) p_ == (const void*) o.p_;
    }
    template<class U>
    bool operator!=(const RCP<U>& o) const {
        return !(*this == o);
    }
    bool operator==(ENull) const { return p_ == nullptr; }
    bool operator!=(ENull) const { return p_ != nullptr; }
};

template<class T>
struct Ptr {
    T* p;
    T& operator*() const { return *p; }
    T* operator->() const { return p; }
};
template<class T>
Ptr<T> outArg(T& x) {
    return Ptr<T>{&x};
}

template<class T, class... A>
RCP<T> make_rcp(A&&... a) {
    return RCP<T>(new std::remove_const_t<T>(std::forward<A>(a)...));
}
template<class T, class U>
RCP<T> rcp_static_cast(const RCP<U>& o) {
    return RCP<T>(static_cast<T*>(o.get()));
}
template<class T, class U>
RCP<T> rcp_dynamic_cast(const RCP<U>& o) {
    if (o.is_null()) return RCP<T>();
    T* t = dynamic_cast<T*>(o.get());
    if (!t) throw std::runtime_error("rcp_dynamic_cast: cannot convert.");
    return RCP<T>(t);
}
template<class T, class U>
T down_cast(U& u) {
    return static_cast<T>(u);
}

/* ---------------------------------------------------------------- Basic */
enum TypeID {
    SYMENGINE_INTEGER,
    SYMENGINE_RATIONAL,
    SYMENGINE_REAL_DOUBLE,
    SYMENGINE_INFTY,
    SYMENGINE_NOT_A_NUMBER,
    SYMENGINE_SYMBOL,
    SYMENGINE_MUL,
    SYMENGINE_ADD,
    SYMENGINE_POW,
    SYMENGINE_MEXPRPOLY,
    SYMENGINE_CONSTANT,
    SYMENGINE_CEILING,
    SYMENGINE_FLOOR,
    SYMENGINE_ABS,
    SYMENGINE_NAMEDFN,
    SYMENGINE_FUNCTIONSYMBOL,
    SYMENGINE_MAX,
    SYMENGINE_MIN,
    SYMENGINE_BOOLEAN_ATOM,
    SYMENGINE_AND,
    SYMENGINE_OR,
    SYMENGINE_NOT,
    SYMENGINE_EQUALITY,
    SYMENGINE_UNEQUALITY,
    SYMENGINE_LESSTHAN,
    SYMENGINE_STRICTLESSTHAN
};

class Visitor;
class Basic;
typedef std::vector<RCP<const Basic>> vec_basic;

class Basic {
    mutable std::atomic<hash_t> hash_{0};

public:
    mutable std::atomic<unsigned> refcount_{0};
    TypeID type_code_;
    explicit Basic(TypeID t) : type_code_(t) {}
    Basic(const Basic&) = delete;
    Basic& operator=(const Basic&) = delete;
    virtual ~Basic() {}

    TypeID get_type_code() const { return type_code_; }
    virtual hash_t __hash__() const = 0;
    hash_t hash() const {
        hash_t h = hash_.load(std::memory_order_relaxed);
        if (h == 0) {
            h = __hash__();
            hash_.store(h, std::memory_order_relaxed);
        }
        return h;
    }
    virtual bool __eq__(const Basic& o) const = 0;
    bool __neq__(const Basic& o) const { return !__eq__(o); }
    virtual int compare(const Basic& o) const = 0;
    int __cmp__(const Basic& o) const {
        if (this == &o) return 0;
        if (type_code_ == o.type_code_) return compare(o);
        return type_code_ < o.type_code_ ? -1 : 1;
    }
    virtual vec_basic get_args() const = 0;
    virtual void accept(Visitor& v) const = 0;
    std::string __str__() const;
    RCP<const Basic> rcp_from_this() const { return RCP<const Basic>(this); }
    template<class T>
    RCP<const T> rcp_from_this_cast() const {
        return RCP<const T>(static_cast<const T*>(this));
    }
};

inline bool eq(const Basic& a, const Basic& b) {
    if (&a == &b) return true;
    if (a.hash() != b.hash()) return false;
    return a.__eq__(b);
}
inline bool neq(const Basic& a, const Basic& b) { return !eq(a, b); }

template<class T>
bool is_a(const Basic& b) {
    return std::remove_const_t<T>::type_code_id == b.get_type_code();
}
template<class T>
bool is_a_sub(const Basic& b) {
    return dynamic_cast<const T*>(&b) != nullptr;
}

struct RCPBasicHash {
    template<class T>
    size_t operator()(const RCP<T>& k) const {
        return (size_t) k->hash();
    }
};
struct RCPBasicKeyEq {
    template<class T, class U>
    bool operator()(const RCP<T>& x, const RCP<U>& y) const {
        return eq(*x, *y);
    }
};
struct RCPBasicKeyLess {
    template<class T, class U>
    bool operator()(const RCP<T>& x, const RCP<U>& y) const {
        hash_t a = x->hash(), b = y->hash();
        if (a != b) return a < b;
        if (eq(*x, *y)) return false;
        return x->__cmp__(*y) == -1;
    }
};

class Number;
class Integer;
class Symbol;
class Boolean;
typedef std::set<RCP<const Basic>, RCPBasicKeyLess> set_basic;
typedef std::set<RCP<const Boolean>, RCPBasicKeyLess> set_boolean;
typedef std::map<RCP<const Basic>, RCP<const Basic>, RCPBasicKeyLess> map_basic_basic;
typedef std::unordered_map<RCP<const Basic>, RCP<const Basic>, RCPBasicHash, RCPBasicKeyEq> umap_basic_basic;
typedef std::map<RCP<const Basic>, RCP<const Number>, RCPBasicKeyLess> map_basic_num;
typedef map_basic_num umap_basic_num;
typedef std::vector<RCP<const Symbol>> vec_sym;
typedef mpz_class integer_class;
typedef mpq_class rational_class;

#define SYMSHIM_TYPE(ID)                          \
    static constexpr TypeID type_code_id = ID;    \
    void accept(Visitor& v) const override;       \
    hash_t __hash__() const override;             \
    bool __eq__(const Basic& o) const override;   \
    int compare(const Basic& o) const override;   \
    vec_basic get_args() const override;

/* ---------------------------------------------------------------- numbers */
class Number : public Basic {
public:
    using Basic::Basic;
    virtual bool is_zero() const = 0;
    virtual bool is_one() const = 0;
    virtual bool is_minus_one() const = 0;
    virtual bool is_negative() const = 0;
    virtual bool is_positive() const = 0;
    virtual bool is_exact() const { return true; }
};
class Integer : public Number {
    integer_class i_;

public:
    SYMSHIM_TYPE(SYMENGINE_INTEGER)
    explicit Integer(integer_class i) : Number(type_code_id), i_(std::move(i)) {}
    const integer_class& as_integer_class() const { return i_; }
    signed long int as_int() const;
    unsigned long int as_uint() const;
    bool is_zero() const override { return i_ == 0; }
    bool is_one() const override { return i_ == 1; }
    bool is_minus_one() const override { return i_ == -1; }
    bool is_negative() const override { return i_ < 0; }
    bool is_positive() const override { return i_ > 0; }
};
class Rational : public Number {
    rational_class q_;

public:
    SYMSHIM_TYPE(SYMENGINE_RATIONAL)
    explicit Rational(rational_class q) : Number(type_code_id), q_(std::move(q)) {}
    const rational_class& as_rational_class() const { return q_; }
    RCP<const Integer> get_num() const;
    RCP<const Integer> get_den() const;
    static RCP<const Number> from_mpq(rational_class q);
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return q_ < 0; }
    bool is_positive() const override { return q_ > 0; }
};
class RealDouble : public Number {
public:
    double i;
    SYMSHIM_TYPE(SYMENGINE_REAL_DOUBLE)
    explicit RealDouble(double d) : Number(type_code_id), i(d) {}
    double as_double() const { return i; }
    bool is_zero() const override { return i == 0.0; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return i < 0; }
    bool is_positive() const override { return i > 0; }
    bool is_exact() const override { return false; }
};
class Infty : public Number {
    int dir_;

public:
    SYMSHIM_TYPE(SYMENGINE_INFTY)
    explicit Infty(int d) : Number(type_code_id), dir_(d) {}
    int dir() const { return dir_; }
    bool is_positive_infinity() const { return dir_ > 0; }
    bool is_negative_infinity() const { return dir_ < 0; }
    bool is_unsigned_infinity() const { return dir_ == 0; }
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return dir_ < 0; }
    bool is_positive() const override { return dir_ > 0; }
    bool is_exact() const override { return false; }
};
class NaN : public Number {
public:
    SYMSHIM_TYPE(SYMENGINE_NOT_A_NUMBER)
    NaN() : Number(type_code_id) {}
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return false; }
    bool is_positive() const override { return false; }
    bool is_exact() const override { return false; }
};
inline bool is_a_Number(const Basic& b) { return b.get_type_code() <= SYMENGINE_NOT_A_NUMBER; }

RCP<const Number> addnum(const RCP<const Number>& a, const RCP<const Number>& b);
RCP<const Number> mulnum(const RCP<const Number>& a, const RCP<const Number>& b);
RCP<const Number> subnum(const RCP<const Number>& a, const RCP<const Number>& b);

RCP<const Integer> integer(int64_t i);
inline RCP<const Integer> integer(int i) { return integer((int64_t) i); }
inline RCP<const Integer> integer(unsigned i) { return integer((int64_t) i); }
RCP<const Integer> integer(uint64_t i);
inline RCP<const Integer> integer(long long i) { return integer((int64_t) i); }
inline RCP<const Integer> integer(unsigned long long i) { return integer((uint64_t) i); }
RCP<const Integer> integer(integer_class i);
RCP<const Number> rational(long n, long d);
RCP<const RealDouble> real_double(double d);
RCP<const Infty> infty(int n = 1);

extern RCP<const Integer> zero, one, minus_one;
extern RCP<const Infty> Inf, NegInf, ComplexInf;
extern RCP<const NaN> Nan;

/* ---------------------------------------------------------------- expressions */
class Symbol : public Basic {
    std::string name_;

public:
    SYMSHIM_TYPE(SYMENGINE_SYMBOL)
    explicit Symbol(std::string n) : Basic(type_code_id), name_(std::move(n)) {}
    const std::string& get_name() const { return name_; }
};
inline RCP<const Symbol> symbol(const std::string& n) { return make_rcp<const Symbol>(n); }

class Add : public Basic {
    RCP<const Number> coef_;
    umap_basic_num dict_;

public:
    SYMSHIM_TYPE(SYMENGINE_ADD)
    Add(RCP<const Number> c, umap_basic_num&& d) : Basic(type_code_id), coef_(std::move(c)), dict_(std::move(d)) {}
    const RCP<const Number>& get_coef() const { return coef_; }
    const umap_basic_num& get_dict() const { return dict_; }
};
class Mul : public Basic {
    RCP<const Number> coef_;
    map_basic_basic dict_;

public:
    SYMSHIM_TYPE(SYMENGINE_MUL)
    Mul(RCP<const Number> c, map_basic_basic&& d) : Basic(type_code_id), coef_(std::move(c)), dict_(std::move(d)) {}
    const RCP<const Number>& get_coef() const { return coef_; }
    const map_basic_basic& get_dict() const { return dict_; }
};
class Pow : public Basic {
    RCP<const Basic> base_, exp_;

public:
    SYMSHIM_TYPE(SYMENGINE_POW)
    Pow(RCP<const Basic> b, RCP<const Basic> e) : Basic(type_code_id), base_(std::move(b)), exp_(std::move(e)) {}
    const RCP<const Basic>& get_base() const { return base_; }
    const RCP<const Basic>& get_exp() const { return exp_; }
};
class Constant : public Basic {
    std::string name_;

public:
    SYMSHIM_TYPE(SYMENGINE_CONSTANT)
    explicit Constant(std::string n) : Basic(type_code_id), name_(std::move(n)) {}
    const std::string& get_name() const { return name_; }
};
extern RCP<const Constant> E, pi;

class Function : public Basic {
public:
    using Basic::Basic;
};
class MultiArgFunction : public Function {
protected:
    vec_basic arg_;

public:
    MultiArgFunction(TypeID t, vec_basic a) : Function(t), arg_(std::move(a)) {}
    const vec_basic& get_vec() const { return arg_; }
    virtual RCP<const Basic> create(const vec_basic& a) const = 0;
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override { return arg_; }
};
class FunctionSymbol : public MultiArgFunction {
protected:
    std::string name_;

public:
    static constexpr TypeID type_code_id = SYMENGINE_FUNCTIONSYMBOL;
    FunctionSymbol(std::string name, const vec_basic& arg) : MultiArgFunction(type_code_id, arg), name_(std::move(name)) {}
    FunctionSymbol(std::string name, const RCP<const Basic>& arg)
        : MultiArgFunction(type_code_id, {arg}), name_(std::move(name)) {}
    const std::string& get_name() const { return name_; }
    void accept(Visitor& v) const override;
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    RCP<const Basic> create(const vec_basic& a) const override;
};
class Max : public MultiArgFunction {
public:
    static constexpr TypeID type_code_id = SYMENGINE_MAX;
    explicit Max(const vec_basic&& a) : MultiArgFunction(type_code_id, a) {}
    void accept(Visitor& v) const override;
    RCP<const Basic> create(const vec_basic& a) const override;
};
class Min : public MultiArgFunction {
public:
    static constexpr TypeID type_code_id = SYMENGINE_MIN;
    explicit Min(const vec_basic&& a) : MultiArgFunction(type_code_id, a) {}
    void accept(Visitor& v) const override;
    RCP<const Basic> create(const vec_basic& a) const override;
};
// one class for the built-in functions the parser knows but docc never inspects
class NamedFunction : public MultiArgFunction {
    std::string name_;

public:
    static constexpr TypeID type_code_id = SYMENGINE_NAMEDFN;
    NamedFunction(std::string n, const vec_basic& a) : MultiArgFunction(type_code_id, a), name_(std::move(n)) {}
    const std::string& get_name() const { return name_; }
    void accept(Visitor& v) const override;
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    RCP<const Basic> create(const vec_basic& a) const override;
};

/* ---------------------------------------------------------------- logic */
class Boolean : public Basic {
public:
    using Basic::Basic;
    virtual RCP<const Boolean> logical_not() const;
};
class BooleanAtom : public Boolean {
    bool b_;

public:
    SYMSHIM_TYPE(SYMENGINE_BOOLEAN_ATOM)
    explicit BooleanAtom(bool b) : Boolean(type_code_id), b_(b) {}
    bool get_val() const { return b_; }
    RCP<const Boolean> logical_not() const override;
};
class And : public Boolean {
    set_boolean c_;

public:
    SYMSHIM_TYPE(SYMENGINE_AND)
    explicit And(set_boolean s) : Boolean(type_code_id), c_(std::move(s)) {}
    const set_boolean& get_container() const { return c_; }
    RCP<const Boolean> logical_not() const override;
};
class Or : public Boolean {
    set_boolean c_;

public:
    SYMSHIM_TYPE(SYMENGINE_OR)
    explicit Or(set_boolean s) : Boolean(type_code_id), c_(std::move(s)) {}
    const set_boolean& get_container() const { return c_; }
    RCP<const Boolean> logical_not() const override;
};
class Not : public Boolean {
    RCP<const Boolean> arg_;

public:
    SYMSHIM_TYPE(SYMENGINE_NOT)
    explicit Not(RCP<const Boolean> a) : Boolean(type_code_id), arg_(std::move(a)) {}
    const RCP<const Boolean>& get_arg() const { return arg_; }
    RCP<const Boolean> logical_not() const override;
};
class Relational : public Boolean {
protected:
    RCP<const Basic> a_, b_;

public:
    Relational(TypeID t, RCP<const Basic> a, RCP<const Basic> b) : Boolean(t), a_(std::move(a)), b_(std::move(b)) {}
    const RCP<const Basic>& get_arg1() const { return a_; }
    const RCP<const Basic>& get_arg2() const { return b_; }
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override { return {a_, b_}; }
};
#define SYMSHIM_REL(N, ID)                                                                            \
    class N : public Relational {                                                                     \
    public:                                                                                           \
        static constexpr TypeID type_code_id = ID;                                                    \
        N(RCP<const Basic> a, RCP<const Basic> b) : Relational(type_code_id, std::move(a), std::move(b)) {} \
        void accept(Visitor& v) const override;                                                       \
        RCP<const Boolean> logical_not() const override;                                              \
    };
SYMSHIM_REL(Equality, SYMENGINE_EQUALITY)
SYMSHIM_REL(Unequality, SYMENGINE_UNEQUALITY)
SYMSHIM_REL(LessThan, SYMENGINE_LESSTHAN)
SYMSHIM_REL(StrictLessThan, SYMENGINE_STRICTLESSTHAN)

extern RCP<const BooleanAtom> boolTrue, boolFalse;
inline RCP<const BooleanAtom> boolean(bool b) { return b ? boolTrue : boolFalse; }
inline bool is_a_Boolean(const Basic& b) { return b.get_type_code() >= SYMENGINE_BOOLEAN_ATOM; }
inline bool is_a_Relational(const Basic& b) { return b.get_type_code() >= SYMENGINE_EQUALITY; }
RCP<const Boolean> logical_and(const set_boolean& s);
RCP<const Boolean> logical_or(const set_boolean& s);
RCP<const Boolean> logical_not(const RCP<const Boolean>& s);
RCP<const Boolean> Eq(const RCP<const Basic>& l, const RCP<const Basic>& r);
RCP<const Boolean> Eq(const RCP<const Basic>& l);
RCP<const Boolean> Ne(const RCP<const Basic>& l, const RCP<const Basic>& r);
RCP<const Boolean> Le(const RCP<const Basic>& l, const RCP<const Basic>& r);
RCP<const Boolean> Lt(const RCP<const Basic>& l, const RCP<const Basic>& r);
RCP<const Boolean> Ge(const RCP<const Basic>& l, const RCP<const Basic>& r);
RCP<const Boolean> Gt(const RCP<const Basic>& l, const RCP<const Basic>& r);

/* ---------------------------------------------------------------- operations */
RCP<const Basic> add(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> add(const vec_basic& a);
RCP<const Basic> sub(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> mul(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> mul(const vec_basic& a);
RCP<const Basic> div(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> neg(const RCP<const Basic>& a);
RCP<const Basic> pow(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> max(const vec_basic& a);
RCP<const Basic> min(const vec_basic& a);
RCP<const Basic> ceiling(const RCP<const Basic>& a);
RCP<const Basic> floor(const RCP<const Basic>& a);
RCP<const Basic> function_symbol(std::string name, const RCP<const Basic>& a);
RCP<const Basic> function_symbol(std::string name, const vec_basic& a);
RCP<const Basic> expand(const RCP<const Basic>& a, bool deep = true);
RCP<const Basic> simplify(const RCP<const Basic>& a);
RCP<const Basic> subs(const RCP<const Basic>& a, const map_basic_basic& d);
RCP<const Basic> parse(const std::string& s, bool convert_xor = true);
void as_numer_denom(
    const RCP<const Basic>& x, const Ptr<RCP<const Basic>>& n, const Ptr<RCP<const Basic>>& d
);
bool has_symbol(const Basic& b, const Basic& x);
set_basic free_symbols(const Basic& b);
void shim_traverse(const Basic& b, const std::function<void(const Basic&)>& f);

template<class... T>
set_basic atoms(const Basic& b) {
    set_basic r;
    shim_traverse(b, [&](const Basic& x) {
        if ((... || (dynamic_cast<const T*>(&x) != nullptr))) r.insert(x.rcp_from_this());
    });
    return r;
}

class Expression {
    RCP<const Basic> m_;

public:
    Expression() : m_(zero) {}
    template<class T>
    Expression(T i, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr) : m_(integer(static_cast<long>(i))) {}
    Expression(const std::string& s) : m_(parse(s)) {}
    template<class T>
    Expression(const RCP<T>& o) : m_(o) {}
    operator const RCP<const Basic>&() const { return m_; }
    const RCP<const Basic>& get_basic() const { return m_; }
    Expression operator+(const Expression& o) const { return Expression(add(m_, o.m_)); }
    Expression operator-(const Expression& o) const { return Expression(sub(m_, o.m_)); }
    Expression operator*(const Expression& o) const { return Expression(mul(m_, o.m_)); }
    Expression operator/(const Expression& o) const { return Expression(div(m_, o.m_)); }
    bool operator==(const Expression& o) const { return eq(*m_, *o.m_); }
    bool operator!=(const Expression& o) const { return !eq(*m_, *o.m_); }
};

/* ---------------------------------------------------------------- polynomials */
typedef std::vector<int> vec_int;
class MExprDict {
public:
    std::map<vec_int, Expression> dict_;
    unsigned vec_size = 0;
    const std::map<vec_int, Expression>& get_dict() const { return dict_; }
};
class MExprPoly : public Basic {
    MExprDict d_;
    set_basic vars_;

public:
    SYMSHIM_TYPE(SYMENGINE_MEXPRPOLY)
    MExprPoly(set_basic v, MExprDict d) : Basic(type_code_id), d_(std::move(d)), vars_(std::move(v)) {}
    const MExprDict& get_poly() const { return d_; }
    const set_basic& get_vars() const { return vars_; }
};
RCP<const MExprPoly> shim_mpoly(const RCP<const Basic>& e, const set_basic& gens);
template<class P>
RCP<const P> from_basic(const RCP<const Basic>& e, const set_basic& gens, bool ex = false) {
    static_assert(std::is_same_v<P, MExprPoly>, "only MExprPoly is provided");
    return shim_mpoly(ex ? expand(e) : e, gens);
}

/* ---------------------------------------------------------------- visitors */
#define SYMSHIM_CLASSES(X)                                                                                   \
    X(Integer) X(Rational) X(RealDouble) X(Infty) X(NaN) X(Symbol) X(Mul) X(Add) X(Pow) X(Constant)          \
        X(NamedFunction) X(FunctionSymbol) X(Max) X(Min) X(BooleanAtom) X(And) X(Or) X(Not) X(Equality)      \
            X(Unequality) X(LessThan) X(StrictLessThan) X(MExprPoly)

class Visitor {
public:
    virtual ~Visitor() {}
#define X(C) virtual void visit(const C&) = 0;
    SYMSHIM_CLASSES(X)
#undef X
};
template<class Derived, class Base = Visitor>
class BaseVisitor : public Base {
public:
    template<class... A>
    BaseVisitor(A&&... a) : Base(std::forward<A>(a)...) {}
#define X(C) \
    void visit(const C& x) override { static_cast<Derived*>(this)->bvisit(x); }
    SYMSHIM_CLASSES(X)
#undef X
};

enum class PrecedenceEnum { Relational, Add, Mul, Pow, Atom };

class StrPrinter : public BaseVisitor<StrPrinter> {
protected:
    std::string str_;
    virtual void _print_pow(std::ostringstream& o, const RCP<const Basic>& a, const RCP<const Basic>& b);
    virtual std::string print_mul() { return "*"; }

public:
    virtual ~StrPrinter() {}
    static std::string parenthesize(const std::string& s) { return "(" + s + ")"; }
    static PrecedenceEnum precedence(const Basic& b);
    std::string parenthesizeLT(const RCP<const Basic>& x, PrecedenceEnum p);
    std::string parenthesizeLE(const RCP<const Basic>& x, PrecedenceEnum p);
    void bvisit(const Basic& x);
    void bvisit(const Integer& x);
    void bvisit(const Rational& x);
    void bvisit(const RealDouble& x);
    void bvisit(const Infty& x);
    void bvisit(const NaN& x);
    void bvisit(const Symbol& x);
    void bvisit(const Mul& x);
    void bvisit(const Add& x);
    void bvisit(const Pow& x);
    void bvisit(const Constant& x);
    void bvisit(const NamedFunction& x);
    void bvisit(const FunctionSymbol& x);
    void bvisit(const Max& x);
    void bvisit(const Min& x);
    void bvisit(const BooleanAtom& x);
    void bvisit(const And& x);
    void bvisit(const Or& x);
    void bvisit(const Not& x);
    void bvisit(const Equality& x);
    void bvisit(const Unequality& x);
    void bvisit(const LessThan& x);
    void bvisit(const StrictLessThan& x);
    void bvisit(const MExprPoly& x);
    std::string apply(const RCP<const Basic>& b);
    std::string apply(const Basic& b);
    std::string apply(const vec_basic& v);
};
class CodePrinter : public BaseVisitor<CodePrinter, StrPrinter> {
public:
    using StrPrinter::apply;
    using StrPrinter::bvisit;
    using StrPrinter::str_;
    void bvisit(const Rational& x);
    void bvisit(const Max& x);
    void bvisit(const Min& x);
};

inline std::ostream& operator<<(std::ostream& o, const Basic& b) { return o << b.__str__(); }
template<class T>
std::ostream& operator<<(std::ostream& o, const RCP<T>& b) {
    return b.is_null() ? o << "null" : o << b->__str__();
}

} // namespace SymEngine
