// Reference interpreter for structured SDFGs, independent of the code generators.
// Memory is real memory owned by `Memory`; every access is checked against the object it falls into.
#pragma once
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "eval.h"
#include "sdfg/data_flow/library_nodes/math/cmath/cmath_node.h"
#include "sdfg/data_flow/library_nodes/metadata_node.h"
#include "sdfg/data_flow/library_nodes/barrier_local_node.h"
#include "sdfg/data_flow/library_nodes/stdlib/stdlib.h"
#include "sdfg/data_flow/library_nodes/stdlib/alloca.h"
#include "sdfg/data_flow/library_nodes/stdlib/calloc.h"
#include "sdfg/data_flow/library_nodes/stdlib/free.h"
#include "sdfg/data_flow/library_nodes/stdlib/malloc.h"
#include "sdfg/data_flow/library_nodes/stdlib/memcpy.h"
#include "sdfg/data_flow/library_nodes/stdlib/memmove.h"
#include "sdfg/data_flow/library_nodes/stdlib/memset.h"
#include "sdfg/structured_sdfg.h"
#include "sdfg/types/utils.h"

namespace si {
using namespace sdfg;
namespace cf = sdfg::structured_control_flow;

// the program did something that has no defined meaning (out of bounds, division by zero, ...)
struct Undefined : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct TooLong : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Unsupported : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct Region {
    char* base;
    size_t size;
    std::string name;
    std::vector<unsigned char> init; // 1: written
    bool freed = false;
    bool heap = false;
};

class Memory {
public:
    std::map<uintptr_t, std::unique_ptr<Region>> regions;
    unsigned char garbage = 0x5a;
    ~Memory() {
        for (auto& [a, r] : regions) ::free(r->base);
    }
    Region& alloc(const std::string& name, size_t size, bool initialised, bool heap = false) {
        if (size > (64u << 20)) throw Undefined("allocation of " + std::to_string(size) + " bytes");
        size_t cap = (size + 63) / 64 * 64 + 64;
        char* p = (char*) aligned_alloc(64, cap);
        memset(p, initialised ? 0 : garbage, cap);
        auto r = std::make_unique<Region>();
        r->base = p;
        r->size = size;
        r->name = name;
        r->heap = heap;
        r->init.assign(size, initialised ? 1 : 0);
        auto& ref = *r;
        regions[(uintptr_t) p] = std::move(r);
        return ref;
    }
    Region* find(uintptr_t a) {
        auto it = regions.upper_bound(a);
        if (it == regions.begin()) return nullptr;
        --it;
        Region* r = it->second.get();
        if (a > (uintptr_t) r->base + r->size) return nullptr;
        return r;
    }
    Region& locate(uintptr_t a, size_t n, const std::string& what) {
        Region* r = find(a);
        if (!r) throw Undefined(what + ": no object at this address");
        size_t off = a - (uintptr_t) r->base;
        if (off + n > r->size)
            throw Undefined(
                what + ": offset " + std::to_string(off) + "+" + std::to_string(n) + " outside '" + r->name + "' of " +
                std::to_string(r->size) + " bytes"
            );
        if (r->freed) throw Undefined(what + ": use of '" + r->name + "' after free");
        return *r;
    }
};

struct Val {
    types::PrimitiveType t = types::PrimitiveType::Int64;
    bool fp = false, ptr = false;
    I i = 0;
    double d = 0;
    static Val integer(types::PrimitiveType t, I v) {
        Val r;
        r.t = t;
        r.i = v;
        return r;
    }
    static Val real(types::PrimitiveType t, double v) {
        Val r;
        r.t = t;
        r.fp = true;
        r.d = v;
        return r;
    }
    static Val pointer(uintptr_t p) {
        Val r;
        r.t = types::PrimitiveType::UInt64;
        r.ptr = true;
        r.i = (I) p;
        return r;
    }
};

inline size_t prim_bytes(types::PrimitiveType t) {
    if (t == types::PrimitiveType::X86_FP80) return 16;
    size_t b = (types::bit_width(t) + 7) / 8;
    return b ? b : 1;
}
inline I wrap(types::PrimitiveType t, I v) {
    using P = types::PrimitiveType;
    switch (t) {
        case P::Bool: return v != 0;
        case P::Int8: return (int8_t) v;
        case P::Int16: return (int16_t) v;
        case P::Int32: return (int32_t) v;
        case P::Int64: return (int64_t) v;
        case P::UInt8: return (uint8_t) v;
        case P::UInt16: return (uint16_t) v;
        case P::UInt32: return (uint32_t) v;
        case P::UInt64: return (uint64_t) v;
        default: return v;
    }
}
inline Val convert(const Val& v, types::PrimitiveType t) {
    using P = types::PrimitiveType;
    if (v.ptr) return Val::integer(t, wrap(t, v.i));
    if (types::is_floating_point(t)) {
        double d = v.fp ? v.d : (t == P::Float ? (double) (float) v.i : (double) v.i);
        if (t == P::Float) d = (double) (float) d;
        else if (t != P::Double) throw Unsupported("floating-point type");
        return Val::real(t, d);
    }
    if (v.fp) {
        if (t == P::Bool) return Val::integer(t, v.d != 0);
        double x = std::trunc(v.d);
        if (!(std::fabs(x) < 1.6e38)) throw Undefined("float to integer conversion out of range");
        I i = (I) x;
        if (wrap(t, i) != i) throw Undefined("float to integer conversion out of range");
        return Val::integer(t, i);
    }
    return Val::integer(t, wrap(t, v.i));
}

// Observations of one execution
struct Hooks {
    virtual ~Hooks() = default;
    virtual void access(const data_flow::AccessNode& node, const data_flow::Memlet& memlet, uintptr_t addr, size_t size, bool write) {}
    virtual void symbol_read(const std::string& name) {}
    virtual void symbol_write(const std::string& name, I value) {}
    virtual void node_enter(const cf::ControlFlowNode& node) {}
    virtual void node_leave(const cf::ControlFlowNode& node) {}
    virtual void iteration(const cf::ControlFlowNode& loop, I indvar) {}
    virtual void tasklet(const data_flow::Tasklet& t) {}
};

enum class Order { Forward, Backward, Shuffled };

class Interp {
public:
    const StructuredSDFG& f;
    Memory& mem;
    Hooks* hooks = nullptr;
    std::map<std::string, Region*> loc;
    std::map<std::string, uintptr_t> externals; // address of external objects
    long steps = 0, limit = 400000;
    bool returned = false;
    bool has_result = false;
    Val result;
    bool ambiguous = false; // some transition reads what another of its assignments writes
    Order map_order = Order::Forward;
    uint64_t shuffle_seed = 1;
    bool uninit_is_error = true;
    bool saw_uninit = false;
    long map_iterations = 0;
    Evaluator ev;

    Interp(const StructuredSDFG& f, Memory& m) : f(f), mem(m) {
        ev.lookup = [this](const std::string& n) { return this->symbol(n); };
        ev.other_function = [this](const SymEngine::FunctionSymbol& fn) -> I {
            if (fn.get_name() == "sizeof") {
                auto& so = dynamic_cast<const symbolic::SizeOfTypeFunction&>(fn);
                return (I) size_of(so.get_type());
            }
            if (fn.get_name() == "malloc_usable_size") {
                auto n = SymEngine::rcp_static_cast<const SymEngine::Symbol>(fn.get_args()[0])->get_name();
                Region* r = mem.find(pointer_of(n));
                if (!r) throw Undefined("malloc_usable_size of an unknown pointer");
                return (I) r->size;
            }
            throw Unsupported("function " + fn.get_name());
        };
    }

    void tick() {
        if (++steps > limit) throw TooLong("step limit");
    }

    // ------------------------------------------------------------------ types
    size_t align_of(const types::IType& t) {
        switch (t.type_id()) {
            case types::TypeID::Scalar: return prim_bytes(t.primitive_type());
            case types::TypeID::Array: return align_of(static_cast<const types::Array&>(t).element_type());
            case types::TypeID::Structure: {
                auto& d = f.structure(static_cast<const types::Structure&>(t).name());
                if (d.is_packed()) return 1;
                size_t a = 1;
                for (size_t i = 0; i < d.num_members(); ++i) a = std::max(a, align_of(d.member_type(symbolic::integer(i))));
                return a;
            }
            default: return 8;
        }
    }
    size_t size_of(const types::IType& t) {
        switch (t.type_id()) {
            case types::TypeID::Scalar:
                if (t.primitive_type() == types::PrimitiveType::Void) return 1;
                return prim_bytes(t.primitive_type());
            case types::TypeID::Pointer: return 8;
            case types::TypeID::Array: {
                auto& a = static_cast<const types::Array&>(t);
                I n = expr(a.num_elements());
                if (n < 0 || n > (1 << 24)) throw Undefined("array extent " + istr(n));
                return (size_t) n * size_of(a.element_type());
            }
            case types::TypeID::Structure: {
                auto& d = f.structure(static_cast<const types::Structure&>(t).name());
                size_t off = 0, al = 1;
                for (size_t i = 0; i < d.num_members(); ++i) {
                    auto& m = d.member_type(symbolic::integer(i));
                    size_t a = d.is_packed() ? 1 : align_of(m);
                    al = std::max(al, a);
                    off = (off + a - 1) / a * a + size_of(m);
                }
                return (off + al - 1) / al * al;
            }
            default: throw Unsupported("size of type " + t.print());
        }
    }
    size_t member_offset(const types::StructureDefinition& d, size_t k) {
        size_t off = 0;
        for (size_t i = 0; i < d.num_members(); ++i) {
            auto& m = d.member_type(symbolic::integer(i));
            size_t a = d.is_packed() ? 1 : align_of(m);
            off = (off + a - 1) / a * a;
            if (i == k) return off;
            off += size_of(m);
        }
        throw Undefined("member index");
    }

    // ------------------------------------------------------------------ containers
    bool is_constant_name(const std::string& n) const { return n == symbolic::__nullptr__()->get_name(); }

    Region& storage(const std::string& n) {
        auto it = loc.find(n);
        if (it != loc.end()) return *it->second;
        if (!f.exists(n)) throw Undefined("unknown container " + n);
        Region& r = mem.alloc(n, size_of(f.type(n)), false);
        loc[n] = &r;
        return r;
    }
    void bind(const std::string& n, const Val& v) {
        Region& r = mem.alloc(n, size_of(f.type(n)), false);
        loc[n] = &r;
        if (f.type(n).type_id() == types::TypeID::Pointer) {
            uint64_t p = (uint64_t) v.i;
            memcpy(r.base, &p, 8);
            std::fill(r.init.begin(), r.init.end(), 1);
        } else {
            store_at((uintptr_t) r.base, f.type(n).primitive_type(), v, n);
        }
    }
    void check_init(Region& r, uintptr_t a, size_t n, const std::string& what) {
        size_t off = a - (uintptr_t) r.base;
        for (size_t k = 0; k < n; ++k)
            if (!r.init[off + k]) {
                saw_uninit = true;
                if (uninit_is_error) throw Undefined(what + ": reads uninitialised memory of '" + r.name + "'");
                return;
            }
    }
    Val load_at(uintptr_t a, types::PrimitiveType t, const std::string& what) {
        using P = types::PrimitiveType;
        size_t n = prim_bytes(t);
        Region& r = mem.locate(a, n, what);
        check_init(r, a, n, what);
        if (t == P::Float) {
            float x;
            memcpy(&x, (void*) a, 4);
            return Val::real(t, x);
        }
        if (t == P::Double) {
            double x;
            memcpy(&x, (void*) a, 8);
            return Val::real(t, x);
        }
        if (types::is_floating_point(t) || n > 8) throw Unsupported("type");
        uint64_t u = 0;
        memcpy(&u, (void*) a, n);
        if (t == P::Bool) u &= 1;
        return Val::integer(t, wrap(t, (I) u));
    }
    void mark(Region& r, uintptr_t a, size_t n) {
        size_t off = a - (uintptr_t) r.base;
        std::fill(r.init.begin() + off, r.init.begin() + off + n, 1);
    }
    void store_at(uintptr_t a, types::PrimitiveType t, const Val& v0, const std::string& what) {
        using P = types::PrimitiveType;
        size_t n = prim_bytes(t);
        Region& r = mem.locate(a, n, what);
        Val v = convert(v0, t);
        if (t == P::Float) {
            float x = (float) v.d;
            memcpy((void*) a, &x, 4);
        } else if (t == P::Double) {
            memcpy((void*) a, &v.d, 8);
        } else {
            uint64_t u = (uint64_t) v.i;
            memcpy((void*) a, &u, n);
        }
        mark(r, a, n);
    }
    uintptr_t load_ptr(uintptr_t a, const std::string& what) {
        Region& r = mem.locate(a, 8, what);
        check_init(r, a, 8, what);
        uint64_t u;
        memcpy(&u, (void*) a, 8);
        return u;
    }
    void store_ptr(uintptr_t a, uintptr_t v, const std::string& what) {
        Region& r = mem.locate(a, 8, what);
        uint64_t u = v;
        memcpy((void*) a, &u, 8);
        mark(r, a, 8);
    }
    bool strict = false; // subscripts stay within their dimension
    uintptr_t pointer_of(const std::string& n) {
        if (is_constant_name(n)) return 0;
        if (f.is_external(n)) {
            auto it = externals.find(n);
            if (it == externals.end()) throw Unsupported("external " + n);
            return it->second;
        }
        // an array decays to its address, as in the generated code
        if (f.exists(n) && f.type(n).type_id() == types::TypeID::Array) return (uintptr_t) storage(n).base;
        return load_ptr((uintptr_t) storage(n).base, n);
    }
    I symbol(const std::string& n) {
        if (is_constant_name(n)) return 0;
        if (!f.exists(n)) throw Undefined("unknown symbol " + n);
        if (hooks) hooks->symbol_read(n);
        auto& t = f.type(n);
        if (t.type_id() == types::TypeID::Pointer) return (I) pointer_of(n);
        if (t.type_id() != types::TypeID::Scalar) throw Undefined("symbol " + n + " is not a scalar");
        Val v = load_at((uintptr_t) storage(n).base, t.primitive_type(), n);
        if (v.fp) throw Undefined("symbol " + n + " is not an integer");
        return v.i;
    }
    I expr(const symbolic::Expression& e) {
        try {
            return ev.eval(e);
        } catch (const EvalError& x) {
            throw Undefined(std::string("expression: ") + x.what());
        }
    }

    // address of subset within an object of type t at address a; t becomes the element type
    uintptr_t descend(uintptr_t a, std::unique_ptr<types::IType>& t, const data_flow::Subset& s, size_t k) {
        for (; k < s.size(); ++k) {
            if (t->type_id() == types::TypeID::Array) {
                auto& arr = static_cast<const types::Array&>(*t);
                auto el = arr.element_type().clone();
                I at = expr(s[k]);
                if (strict && (at < 0 || at >= expr(arr.num_elements()))) throw Undefined("index outside the dimension");
                a += (intptr_t) at * (intptr_t) size_of(*el);
                t = std::move(el);
            } else if (t->type_id() == types::TypeID::Structure) {
                auto& d = f.structure(static_cast<const types::Structure&>(*t).name());
                I m = expr(s[k]);
                if (m < 0 || m >= (I) d.num_members()) throw Undefined("member index");
                auto el = d.member_type(symbolic::integer((int64_t) m)).clone();
                a += member_offset(d, (size_t) m);
                t = std::move(el);
            } else
                throw Undefined("subset of a " + t->print());
        }
        return a;
    }
    // address a memlet designates, and the type found there
    uintptr_t address(const data_flow::AccessNode& n, const types::IType& base, const data_flow::Subset& s, std::unique_ptr<types::IType>& t) {
        if (base.type_id() == types::TypeID::Pointer) {
            if (s.empty()) {
                t = base.clone();
                return f.is_external(n.data()) ? 0 : (uintptr_t) storage(n.data()).base;
            }
            auto& p = static_cast<const types::Pointer&>(base);
            if (!p.has_pointee_type()) throw Undefined("opaque pointer with a subset");
            uintptr_t a = pointer_of(n.data());
            t = p.pointee_type().clone();
            a += (intptr_t) expr(s[0]) * (intptr_t) size_of(*t);
            return descend(a, t, s, 1);
        }
        if (base.type_id() == types::TypeID::Tensor && f.type(n.data()).type_id() == types::TypeID::Pointer) {
            auto& q = static_cast<const types::Tensor&>(base);
            if (s.size() != q.shape().size()) throw Undefined("tensor access of another rank");
            I off = expr(q.offset());
            for (size_t k = 0; k < s.size(); ++k) off += expr(s[k]) * expr(q.strides().at(k));
            t = q.element_type().clone();
            return pointer_of(n.data()) + (intptr_t) off * (intptr_t) size_of(*t);
        }
        uintptr_t a = (uintptr_t) storage(n.data()).base;
        t = base.clone();
        return descend(a, t, s, 0);
    }

    // ------------------------------------------------------------------ dataflow
    Val constant(const data_flow::ConstantNode& c) {
        auto& t = c.type();
        std::string s = c.data();
        if (t.type_id() == types::TypeID::Pointer) {
            if (is_constant_name(s)) return Val::pointer(0);
            throw Unsupported("pointer constant");
        }
        auto p = t.primitive_type();
        if (types::is_floating_point(p)) {
            if (s == "INFINITY") return convert(Val::real(types::PrimitiveType::Double, INFINITY), p);
            if (s == "-INFINITY") return convert(Val::real(types::PrimitiveType::Double, -INFINITY), p);
            if (s == "NAN") return convert(Val::real(types::PrimitiveType::Double, NAN), p);
            if (s == "FLT_MAX") return convert(Val::real(types::PrimitiveType::Double, 3.40282346638528859811704183484516925440e+38), p);
            char* e;
            double d = (!s.empty() && (s.back() == 'f' || s.back() == 'F') && s.find("0x") == std::string::npos) ? (double) strtof(s.c_str(), &e) : strtod(s.c_str(), &e);
            if (*e == 'f' || *e == 'F' || *e == 'l' || *e == 'L') ++e;
            if (*e) throw Unsupported("constant " + s);
            return convert(Val::real(types::PrimitiveType::Double, d), p);
        }
        if (s == "true") return Val::integer(p, 1);
        if (s == "false") return Val::integer(p, 0);
        char* e;
        errno = 0;
        I v;
        if (!s.empty() && s[0] == '-')
            v = (I) strtoll(s.c_str(), &e, 0);
        else
            v = (I) strtoull(s.c_str(), &e, 0);
        while (*e == 'u' || *e == 'U' || *e == 'l' || *e == 'L') ++e;
        if (*e || errno) {
            char* e2;
            double d = strtod(s.c_str(), &e2);
            if (*e2) throw Unsupported("constant " + s);
            return convert(Val::real(types::PrimitiveType::Double, d), p);
        }
        return Val::integer(p, wrap(p, v));
    }

    Val read(const data_flow::Memlet& m) {
        auto& n = dynamic_cast<const data_flow::AccessNode&>(m.src());
        if (auto c = dynamic_cast<const data_flow::ConstantNode*>(&n)) return constant(*c);
        std::unique_ptr<types::IType> t;
        uintptr_t a = address(n, m.base_type(), m.subset(), t);
        if (t->type_id() == types::TypeID::Pointer) {
            if (f.is_external(n.data())) return Val::pointer(pointer_of(n.data()));
            if (hooks) hooks->access(n, m, a, 8, false);
            return Val::pointer(load_ptr(a, "read of " + n.data()));
        }
        if (t->type_id() != types::TypeID::Scalar) throw Unsupported("computational memlet of type " + t->print());
        if (hooks) hooks->access(n, m, a, prim_bytes(t->primitive_type()), false);
        return load_at(a, t->primitive_type(), "read of " + n.data());
    }
    void write(const data_flow::Memlet& m, const Val& v) {
        auto& n = dynamic_cast<const data_flow::AccessNode&>(m.dst());
        std::unique_ptr<types::IType> t;
        uintptr_t a = address(n, m.base_type(), m.subset(), t);
        if (t->type_id() == types::TypeID::Pointer) {
            if (hooks) hooks->access(n, m, a, 8, true);
            store_ptr(a, (uintptr_t) v.i, "write of " + n.data());
            return;
        }
        if (t->type_id() != types::TypeID::Scalar) throw Unsupported("computational memlet of type " + t->print());
        if (hooks) hooks->access(n, m, a, prim_bytes(t->primitive_type()), true);
        store_at(a, t->primitive_type(), v, "write of " + n.data());
    }

    static types::PrimitiveType promote(types::PrimitiveType t) {
        using P = types::PrimitiveType;
        return types::bit_width(t) < 32 ? P::Int32 : t;
    }
    static types::PrimitiveType common(types::PrimitiveType a, types::PrimitiveType b) {
        a = promote(a);
        b = promote(b);
        if (types::bit_width(a) != types::bit_width(b)) return types::bit_width(a) > types::bit_width(b) ? a : b;
        return types::is_unsigned(a) ? a : b;
    }

    // the meaning of a tasklet code, from the operation's documentation in tasklet.h
    Val apply(data_flow::TaskletCode c, const std::vector<Val>& in) {
        using T = data_flow::TaskletCode;
        using P = types::PrimitiveType;
        if (c == T::assign) return in[0];
        auto B = [](bool b) { return Val::integer(P::Bool, b); };
        if (data_flow::is_floating_point(c)) {
            bool dbl = false;
            for (auto& v : in) {
                if (!v.fp) throw Unsupported("integer operand of a floating-point tasklet");
                dbl |= v.t == P::Double;
            }
            P t = dbl ? P::Double : P::Float;
            auto R = [&](double d) { return Val::real(t, t == P::Float ? (double) (float) d : d); };
            double a = in[0].d, b = in.size() > 1 ? in[1].d : 0;
            bool un = std::isnan(a) || std::isnan(b);
            switch (c) {
                case T::fp_neg: return R(-a);
                case T::fp_add: return R(a + b);
                case T::fp_sub: return R(a - b);
                case T::fp_mul: return R(a * b);
                case T::fp_div: return R(a / b);
                case T::fp_rem: return R(std::fmod(a, b));
                case T::fp_fma: return R(t == P::Float ? (double) (float) ((float) (a * b)) + in[2].d : a * b + in[2].d);
                case T::fp_oeq: return B(!un && a == b);
                case T::fp_one: return B(!un && a != b);
                case T::fp_oge: return B(!un && a >= b);
                case T::fp_ogt: return B(!un && a > b);
                case T::fp_ole: return B(!un && a <= b);
                case T::fp_olt: return B(!un && a < b);
                case T::fp_ord: return B(!un);
                case T::fp_ueq: return B(un || a == b);
                case T::fp_une: return B(un || a != b);
                case T::fp_ugt: return B(un || a > b);
                case T::fp_uge: return B(un || a >= b);
                case T::fp_ult: return B(un || a < b);
                case T::fp_ule: return B(un || a <= b);
                case T::fp_uno: return B(un);
                default: throw Unsupported("tasklet");
            }
        }
        for (auto& v : in)
            if (v.fp) throw Unsupported("floating-point operand of an integer tasklet");
        std::vector<Val> x = in;
        if (data_flow::is_unsigned(c))
            for (auto& v : x) v = convert(v, types::as_unsigned(v.t));
        if (c == T::int_abs) {
            P t = promote(x[0].t);
            return Val::integer(t, wrap(t, x[0].i < 0 ? -x[0].i : x[0].i));
        }
        P t = common(x[0].t, x[1].t);
        I a = wrap(t, x[0].i), b = wrap(t, x[1].i);
        auto R = [&](I v) { return Val::integer(t, wrap(t, v)); };
        int bits = (int) types::bit_width(t);
        switch (c) {
            case T::int_add: return R(a + b);
            case T::int_sub: return R(a - b);
            case T::int_mul: return R((I) ((unsigned __int128) a * (unsigned __int128) b));
            case T::int_sdiv:
            case T::int_udiv:
                if (b == 0) throw Undefined("division by zero");
                if (b == -1 && wrap(t, -a) != -a) throw Undefined("division overflow");
                return R(a / b);
            case T::int_srem:
            case T::int_urem:
                if (b == 0) throw Undefined("division by zero");
                if (b == -1 && wrap(t, -a) != -a) throw Undefined("division overflow");
                return R(a % b);
            case T::int_and: return R(a & b);
            case T::int_or: return R(a | b);
            case T::int_xor: return R(a ^ b);
            case T::int_shl: {
                P pt = promote(x[0].t);
                if (x[1].i < 0 || x[1].i >= (I) types::bit_width(x[0].t)) throw Undefined("shift amount");
                return Val::integer(pt, wrap(pt, (I) ((unsigned __int128) x[0].i << (int) x[1].i)));
            }
            case T::int_ashr:
            case T::int_lshr: {
                if (x[1].i < 0 || x[1].i >= (I) types::bit_width(x[0].t)) throw Undefined("shift amount");
                return Val::integer(promote(x[0].t), x[0].i >> (int) x[1].i);
            }
            case T::int_smin:
            case T::int_umin: return R(a < b ? a : b);
            case T::int_smax:
            case T::int_umax: return R(a > b ? a : b);
            case T::int_scmp:
            case T::int_ucmp: return Val::integer(P::Int32, a < b ? -1 : a > b ? 1 : 0);
            case T::int_eq: return B(a == b);
            case T::int_ne: return B(a != b);
            case T::int_sge:
            case T::int_uge: return B(a >= b);
            case T::int_sgt:
            case T::int_ugt: return B(a > b);
            case T::int_sle:
            case T::int_ule: return B(a <= b);
            case T::int_slt:
            case T::int_ult: return B(a < b);
            default: throw Unsupported("tasklet");
        }
        (void) bits;
    }

    void run_tasklet(const data_flow::DataFlowGraph& g, const data_flow::Tasklet& t) {
        tick();
        if (hooks) hooks->tasklet(t);
        std::map<std::string, Val> in;
        for (auto& e : g.in_edges(t)) in[e.dst_conn()] = read(e);
        std::vector<Val> ops;
        for (auto& c : t.inputs()) {
            auto it = in.find(c);
            if (it == in.end()) throw Undefined("unconnected input " + c);
            ops.push_back(it->second);
        }
        Val r = apply(t.code(), ops);
        for (auto& e : g.out_edges(t)) {
            if (r.ptr) {
                write(e, r);
                continue;
            }
            auto rt = e.result_type(f);
            write(e, convert(r, rt->primitive_type()));
        }
    }

    void run_edge(const data_flow::Memlet& m) {
        tick();
        auto& src = dynamic_cast<const data_flow::AccessNode&>(m.src());
        auto& dst = dynamic_cast<const data_flow::AccessNode&>(m.dst());
        auto dst_slot = [&] { return (uintptr_t) storage(dst.data()).base; };
        switch (m.type()) {
            case data_flow::MemletType::Reference: {
                uintptr_t v;
                if (auto c = dynamic_cast<const data_flow::ConstantNode*>(&src)) {
                    v = (uintptr_t) constant(*c).i;
                } else if (is_constant_name(src.data())) {
                    v = 0;
                } else {
                    std::unique_ptr<types::IType> t;
                    v = address(src, m.base_type(), m.subset(), t);
                    if (f.is_external(src.data()) && m.subset().empty()) v = pointer_of(src.data());
                }
                if (hooks) hooks->access(dst, m, dst_slot(), 8, true);
                store_ptr(dst_slot(), v, "reference " + dst.data());
                break;
            }
            case data_flow::MemletType::Dereference_Src: {
                uintptr_t p = pointer_of(src.data());
                auto& dt = f.type(dst.data());
                if (dt.type_id() == types::TypeID::Pointer) {
                    if (hooks) hooks->access(src, m, p, 8, false), hooks->access(dst, m, dst_slot(), 8, true);
                    store_ptr(dst_slot(), load_ptr(p, "dereference of " + src.data()), dst.data());
                } else if (dt.type_id() == types::TypeID::Scalar) {
                    auto& bt = static_cast<const types::Pointer&>(m.base_type()).pointee_type();
                    auto pt = bt.type_id() == types::TypeID::Scalar ? bt.primitive_type() : types::PrimitiveType::UInt64;
                    if (hooks) hooks->access(src, m, p, prim_bytes(pt), false), hooks->access(dst, m, dst_slot(), prim_bytes(dt.primitive_type()), true);
                    store_at(dst_slot(), dt.primitive_type(), load_at(p, pt, "dereference of " + src.data()), dst.data());
                } else {
                    size_t n = size_of(dt);
                    copy_bytes(dst_slot(), p, n);
                }
                break;
            }
            case data_flow::MemletType::Dereference_Dst: {
                uintptr_t p = pointer_of(dst.data());
                auto c = dynamic_cast<const data_flow::ConstantNode*>(&src);
                const types::IType& st = c ? c->type() : f.type(src.data());
                auto& bt = static_cast<const types::Pointer&>(m.base_type()).pointee_type();
                if (st.type_id() == types::TypeID::Pointer || (c && is_constant_name(src.data()))) {
                    uintptr_t v = c || is_constant_name(src.data()) ? 0 : pointer_of(src.data());
                    if (hooks) hooks->access(dst, m, p, 8, true);
                    store_ptr(p, v, "store through " + dst.data());
                } else if (st.type_id() == types::TypeID::Scalar) {
                    Val v = c ? constant(*c) : load_at((uintptr_t) storage(src.data()).base, st.primitive_type(), src.data());
                    if (hooks && !c) hooks->access(src, m, (uintptr_t) storage(src.data()).base, prim_bytes(st.primitive_type()), false);
                    if (hooks) hooks->access(dst, m, p, prim_bytes(bt.primitive_type()), true);
                    store_at(p, bt.type_id() == types::TypeID::Scalar ? bt.primitive_type() : types::PrimitiveType::UInt64, v, "store through " + dst.data());
                } else {
                    copy_bytes(p, (uintptr_t) storage(src.data()).base, size_of(st));
                }
                break;
            }
            default: break;
        }
    }
    void copy_bytes(uintptr_t d, uintptr_t s, size_t n) {
        Region& rs = mem.locate(s, n, "copy source");
        Region& rd = mem.locate(d, n, "copy target");
        size_t os = s - (uintptr_t) rs.base, od = d - (uintptr_t) rd.base;
        memmove((void*) d, (void*) s, n);
        std::vector<unsigned char> tmp(rs.init.begin() + os, rs.init.begin() + os + n);
        std::copy(tmp.begin(), tmp.end(), rd.init.begin() + od);
    }

    std::function<bool(Interp&, const data_flow::DataFlowGraph&, const data_flow::LibraryNode&)> library_hook;

    void run_library(const data_flow::DataFlowGraph& g, const data_flow::LibraryNode& n) {
        tick();
        if (library_hook && library_hook(*this, g, n)) return;
        std::map<std::string, const data_flow::Memlet*> in, out;
        for (auto& e : g.in_edges(n)) in[e.dst_conn()] = &e;
        for (auto& e : g.out_edges(n)) out[e.src_conn()] = &e;
        if (auto c = dynamic_cast<const math::cmath::CMathNode*>(&n)) {
            std::vector<Val> a;
            for (auto& i : n.inputs()) a.push_back(read(*in.at(i)));
            Val r = cmath(*c, a);
            for (auto& o : n.outputs()) write(*out.at(o), r);
            return;
        }
        auto first_in = [&] { return read(*in.at(n.inputs().at(0))); };
        if (auto m = dynamic_cast<const stdlib::MallocNode*>(&n)) {
            Region& r = mem.alloc("heap", (size_t) expr(m->size()), false, true);
            for (auto& o : n.outputs()) write(*out.at(o), Val::pointer((uintptr_t) r.base));
        } else if (auto m = dynamic_cast<const stdlib::AllocaNode*>(&n)) {
            Region& r = mem.alloc("alloca", (size_t) expr(m->size()), false);
            for (auto& o : n.outputs()) write(*out.at(o), Val::pointer((uintptr_t) r.base));
        } else if (auto m = dynamic_cast<const stdlib::CallocNode*>(&n)) {
            Region& r = mem.alloc("heap", (size_t) (expr(m->num()) * expr(m->size())), true, true);
            for (auto& o : n.outputs()) write(*out.at(o), Val::pointer((uintptr_t) r.base));
        } else if (dynamic_cast<const stdlib::FreeNode*>(&n)) {
            Val p = first_in();
            if (p.i != 0) {
                Region* r = mem.find((uintptr_t) p.i);
                if (!r || (uintptr_t) r->base != (uintptr_t) p.i || !r->heap || r->freed) throw Undefined("bad free");
                r->freed = true;
            }
        } else if (auto m = dynamic_cast<const stdlib::MemsetNode*>(&n)) {
            size_t k = (size_t) expr(m->num());
            uintptr_t p = out_pointer(*out.begin()->second);
            if (k) {
                Region& r = mem.locate(p, k, "memset");
                memset((void*) p, (int) expr(m->value()), k);
                mark(r, p, k);
            }
        } else if (auto m = dynamic_cast<const stdlib::MemcpyNode*>(&n)) {
            size_t k = (size_t) expr(m->count());
            uintptr_t d = out_pointer(*out.begin()->second), s = (uintptr_t) first_in().i;
            if (k) copy_bytes(d, s, k);
        } else if (auto m = dynamic_cast<const stdlib::MemmoveNode*>(&n)) {
            size_t k = (size_t) expr(m->count());
            uintptr_t d = out_pointer(*out.begin()->second), s = (uintptr_t) first_in().i;
            if (k) copy_bytes(d, s, k);
        } else if (dynamic_cast<const data_flow::MetadataNode*>(&n)) {
        } else
            throw Unsupported("library node " + n.code().value());
    }
    uintptr_t out_pointer(const data_flow::Memlet& m) {
        auto& n = dynamic_cast<const data_flow::AccessNode&>(m.dst());
        std::unique_ptr<types::IType> t;
        uintptr_t a = address(n, m.base_type(), m.subset(), t);
        if (t->type_id() == types::TypeID::Pointer) return f.is_external(n.data()) ? pointer_of(n.data()) : load_ptr(a, n.data());
        return a;
    }

    Val cmath(const math::cmath::CMathNode& c, const std::vector<Val>& a) {
        using F = math::cmath::CMathFunction;
        auto t = c.primitive_type();
        bool flt = t == types::PrimitiveType::Float;
        auto D = [&](double d, float s) { return Val::real(t, flt ? (double) s : d); };
        double x = a[0].d, y = a.size() > 1 ? a[1].d : 0;
        float xf = (float) x, yf = (float) y;
        switch (c.function()) {
            case F::sin: return D(std::sin(x), std::sin(xf));
            case F::cos: return D(std::cos(x), std::cos(xf));
            case F::tanh: return D(std::tanh(x), std::tanh(xf));
            case F::exp: return D(std::exp(x), std::exp(xf));
            case F::log: return D(std::log(x), std::log(xf));
            case F::sqrt: return D(std::sqrt(x), std::sqrt(xf));
            case F::fabs: return D(std::fabs(x), std::fabs(xf));
            case F::floor: return D(std::floor(x), std::floor(xf));
            case F::ceil: return D(std::ceil(x), std::ceil(xf));
            case F::trunc: return D(std::trunc(x), std::trunc(xf));
            case F::round: return D(std::round(x), std::round(xf));
            case F::rint: return D(std::rint(x), std::rint(xf));
            case F::cbrt: return D(std::cbrt(x), std::cbrt(xf));
            case F::erf: return D(std::erf(x), std::erf(xf));
            case F::pow: return D(std::pow(x, y), std::pow(xf, yf));
            case F::fmod: return D(std::fmod(x, y), std::fmod(xf, yf));
            case F::fmin:
            case F::fmax:
                if (x == 0 && y == 0 && std::signbit(x) != std::signbit(y)) throw Undefined("minimum or maximum of two zeros of different signs");
                if (c.function() == F::fmin) return D(std::fmin(x, y), std::fmin(xf, yf));
                return D(std::fmax(x, y), std::fmax(xf, yf));
            case F::fma: return D(std::fma(x, y, a[2].d), std::fma(xf, yf, (float) a[2].d));
            case F::atan2: return D(std::atan2(x, y), std::atan2(xf, yf));
            case F::copysign: return D(std::copysign(x, y), std::copysign(xf, yf));
            default: throw Unsupported("cmath function");
        }
    }

    // order in which a block's nodes run; by default the order the graph itself reports, checked to respect every edge
    std::function<std::vector<const data_flow::DataFlowNode*>(const data_flow::DataFlowGraph&)> node_order;

    std::map<const cf::Block*, std::vector<const data_flow::DataFlowNode*>> plans;

    void run_block(const cf::Block& b) {
        auto& g = b.dataflow();
        auto [pi, fresh] = plans.try_emplace(&b);
        auto& order = pi->second;
        if (fresh) {
            if (node_order)
                order = node_order(g);
            else
                for (auto* n : g.topological_sort()) order.push_back(n);
            std::map<const data_flow::DataFlowNode*, size_t> pos;
            for (size_t i = 0; i < order.size(); ++i) pos[order[i]] = i;
            size_t count = 0;
            for (auto& n : g.nodes()) {
                (void) n;
                ++count;
            }
            if (count != order.size() || pos.size() != count) throw Undefined("order of a block's nodes is not a permutation");
            for (auto& e : g.edges())
                if (pos.at(&e.src()) >= pos.at(&e.dst())) throw Undefined("order of a block's nodes violates an edge");
        }
        for (auto* n : order) {
            if (auto t = dynamic_cast<const data_flow::Tasklet*>(n))
                run_tasklet(g, *t);
            else if (auto l = dynamic_cast<const data_flow::LibraryNode*>(n))
                run_library(g, *l);
            else
                for (auto& e : g.out_edges(*n))
                    if (e.type() != data_flow::MemletType::Computational) run_edge(e);
        }
    }

    // ------------------------------------------------------------------ control flow
    enum class Flow { Next, Break, Continue, Return };

    void set_symbol(const std::string& n, I v) {
        if (hooks) hooks->symbol_write(n, v);
        if (!f.exists(n)) throw Undefined("unknown symbol " + n);
        auto& t = f.type(n);
        if (t.type_id() == types::TypeID::Pointer) {
            store_ptr((uintptr_t) storage(n).base, (uintptr_t) v, n);
            return;
        }
        store_at((uintptr_t) storage(n).base, t.primitive_type(), Val::integer(types::PrimitiveType::Int64, v), n);
    }
    void run_transition(const cf::Transition& t) {
        auto& as = t.assignments();
        if (as.size() > 1) {
            for (auto& [l, r] : as)
                for (auto& [l2, r2] : as)
                    if (!SymEngine::eq(*l, *l2) && symbolic::uses(r2, l)) ambiguous = true;
        }
        for (auto& [l, r] : as) {
            tick();
            set_symbol(l->get_name(), expr(r));
        }
    }
    Flow run_sequence(const cf::Sequence& s) {
        for (size_t i = 0; i < s.size(); ++i) {
            auto c = s.at(i);
            Flow fl = run_node(c.first);
            if (fl != Flow::Next) return fl;
            run_transition(c.second);
        }
        return Flow::Next;
    }
    Flow run_node(const cf::ControlFlowNode& n) {
        tick();
        if (hooks) hooks->node_enter(n);
        Flow r = run_node_inner(n);
        if (hooks) hooks->node_leave(n);
        return r;
    }
    Flow run_node_inner(const cf::ControlFlowNode& n) {
        if (auto b = dynamic_cast<const cf::Block*>(&n)) {
            run_block(*b);
            return Flow::Next;
        }
        if (auto s = dynamic_cast<const cf::Sequence*>(&n)) return run_sequence(*s);
        if (auto ie = dynamic_cast<const cf::IfElse*>(&n)) {
            for (size_t i = 0; i < ie->size(); ++i) {
                auto c = ie->at(i);
                if (expr(c.second)) return run_node(c.first);
            }
            return Flow::Next;
        }
        if (auto w = dynamic_cast<const cf::While*>(&n)) {
            I k = 0;
            while (true) {
                tick();
                if (hooks) hooks->iteration(n, k++);
                Flow fl = run_node(w->root());
                if (fl == Flow::Break) break;
                if (fl == Flow::Return) return fl;
            }
            return Flow::Next;
        }
        if (auto m = dynamic_cast<const cf::Map*>(&n); m && map_order != Order::Forward) return run_map_reordered(*m);
        if (auto l = dynamic_cast<const cf::StructuredLoop*>(&n)) {
            std::string iv = l->indvar()->get_name();
            set_symbol(iv, expr(l->init()));
            while (true) {
                tick();
                if (!expr(l->condition())) break;
                if (hooks) hooks->iteration(n, symbol(iv));
                if (dynamic_cast<const cf::Map*>(&n)) ++map_iterations;
                Flow fl = run_node(l->root());
                if (fl == Flow::Break) break;
                if (fl == Flow::Return) return fl;
                set_symbol(iv, expr(l->update()));
            }
            return Flow::Next;
        }
        if (dynamic_cast<const cf::Break*>(&n)) return Flow::Break;
        if (dynamic_cast<const cf::Continue*>(&n)) return Flow::Continue;
        if (auto r = dynamic_cast<const cf::Return*>(&n)) {
            returned = true;
            if (r->is_data() && !r->data().empty()) {
                auto& t = f.type(r->data());
                if (t.type_id() == types::TypeID::Scalar) {
                    result = load_at((uintptr_t) storage(r->data()).base, t.primitive_type(), "return " + r->data());
                    has_result = true;
                } else if (t.type_id() == types::TypeID::Pointer) {
                    result = Val::pointer(pointer_of(r->data()));
                    has_result = true;
                }
            } else if (r->is_constant() && r->type().type_id() == types::TypeID::Scalar && !r->data().empty()) {
                char* e;
                if (types::is_floating_point(r->type().primitive_type()))
                    result = Val::real(r->type().primitive_type(), strtod(r->data().c_str(), &e));
                else
                    result = Val::integer(r->type().primitive_type(), strtoll(r->data().c_str(), &e, 0));
                has_result = true;
            }
            return Flow::Return;
        }
        throw Unsupported("control flow node");
    }

    // iterations of a map carry no order: run them backwards or shuffled
    Flow run_map_reordered(const cf::Map& m) {
        std::string iv = m.indvar()->get_name();
        std::vector<I> its;
        set_symbol(iv, expr(m.init()));
        while (expr(m.condition())) {
            tick();
            its.push_back(symbol(iv));
            set_symbol(iv, expr(m.update()));
        }
        I final = symbol(iv);
        if (map_order == Order::Backward)
            std::reverse(its.begin(), its.end());
        else
            for (size_t i = its.size(); i > 1; --i) {
                shuffle_seed = shuffle_seed * 6364136223846793005ULL + 1442695040888963407ULL;
                std::swap(its[i - 1], its[(shuffle_seed >> 33) % i]);
            }
        for (I v : its) {
            set_symbol(iv, v);
            ++map_iterations;
            if (hooks) hooks->iteration(m, v);
            Flow fl = run_node(m.root());
            if (fl == Flow::Return) throw Undefined("return inside a map");
            if (fl == Flow::Break) throw Undefined("break out of a map");
        }
        set_symbol(iv, final);
        return Flow::Next;
    }

    void start() {
        // managed allocations happen on entry
        for (auto& c : f.containers()) {
            if (f.is_external(c)) continue;
            auto& t = f.type(c);
            if (t.storage_type().allocation() == types::StorageType::AllocationType::Managed) {
                I n = expr(t.storage_type().allocation_size());
                if (n < 0) throw Undefined("negative allocation");
                Region& r = mem.alloc("managed " + c, (size_t) n, false, true);
                bind(c, Val::pointer((uintptr_t) r.base));
            }
        }
    }
    void run() {
        start();
        run_node(f.root());
    }
};

} // namespace si
