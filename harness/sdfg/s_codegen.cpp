// Generated C and C++ code computes what the program means.
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "exprs.h"
#include <sdfg/codegen/dispatchers/node_dispatcher_registry.h>
#include "gen.h"
#include "sdfg/codegen/code_generators/c_code_generator.h"
#include "sdfg/codegen/code_generators/cpp_code_generator.h"
#include "sdfg/data_flow/library_nodes/math/cmath/cmath_node.h"
using namespace si;
using P = PrimitiveType;
using T = data_flow::TaskletCode;

extern char** environ;

// Programs that touch every operation, type and expression instead of elaborate control flow.
struct OpGen {
    pbt::Src& s;
    ExprGen x{s};
    std::unique_ptr<builder::StructuredSDFGBuilder> b;
    Program pr;
    int id;
    bool cpp;
    int budget = 10, depth = 0, loops = 0, structs = 0, fresh = 0;
    static const long LEN = 8;
    std::vector<P> types{P::Int8, P::Int16, P::Int32, P::Int64, P::UInt8, P::UInt16, P::UInt32, P::UInt64, P::Float, P::Double, P::Bool};
    std::vector<std::string> regs{"r0", "r1", "r2"};
    struct Field {
        std::string container;
        data_flow::Subset tail; // after the element index
        P t;
        std::unique_ptr<types::IType> base;
        bool no_index = false;
        long len = LEN;
    };
    std::vector<Field> places; // everything a tasklet may read or write

    OpGen(pbt::Src& s, int id, bool cpp) : s(s), id(id), cpp(cpp) {}
    static std::string nm(P t) { return std::string("A_") + types::primitive_type_to_string(t); }
    symbolic::Expression num(long v) { return symbolic::integer(v); }

    symbolic::Expression idx(long len) {
        switch (s.weighted({50, 25, 15, 10})) {
            case 0: return num((long) s.below(len));
            case 1:
                if (!x.names.empty()) {
                    auto e = x.expr(1 + (int) s.below(2));
                    return symbolic::max(num(0), symbolic::min(e, num(len - 1)));
                }
                return num(0);
            case 2: return symbolic::mod(symbolic::abs(x.sym()), num(len));
            default: return symbolic::trunc_i32(num((long) s.below(len)));
        }
    }
    data_flow::Subset sub(const Field& f) {
        data_flow::Subset r;
        if (!f.no_index) r.push_back(idx(f.len));
        for (auto& e : f.tail) r.push_back(e);
        return r;
    }
    const Field* place(std::function<bool(P)> ok) {
        std::vector<const Field*> c;
        for (auto& f : places)
            if (ok(f.t)) c.push_back(&f);
        return c.empty() ? nullptr : c[s.below(c.size())];
    }
    static bool is_int(P t) { return !types::is_floating_point(t) && t != P::Bool; }
    std::string constant(P t) {
        if (types::is_floating_point(t)) {
            auto c = s.pick<std::string>({"0.0", "1.0", "-2.5", "3.0", "0.5", "-0.0", "INFINITY", "1e3"});
            return c;
        }
        if (t == P::Bool) return s.flip() ? "true" : "false";
        if (types::is_unsigned(t)) return s.pick<std::string>({"0", "1", "2", "7", "100", "255"});
        return s.pick<std::string>({"0", "1", "-1", "2", "-7", "100", "127", "-128"});
    }
    void tasklet(cf::Sequence& q) {
        auto& blk = b->add_block(q);
        T code = (T) s.below((uint64_t) T::int_ule + 1);
        if (s.chance(25)) code = T::assign;
        bool fp = data_flow::is_floating_point(code), in = data_flow::is_integer(code);
        std::vector<std::string> conns;
        size_t ar = data_flow::arity(code);
        for (size_t k = 0; k < ar; ++k) conns.push_back("_in" + std::to_string(k));
        auto& t = b->add_tasklet(blk, code, "_out", conns);
        auto ok = [&](P t) { return fp ? types::is_floating_point(t) : in ? is_int(t) : true; };
        P first = P::Void;
        std::map<std::string, data_flow::AccessNode*> read;
        for (size_t k = 0; k < ar; ++k) {
            // operands of one type unless sometimes: mixing follows the usual arithmetic conversions
            bool same = k > 0 && s.chance(80);
            auto f = place([&](P t) { return ok(t) && (!same || t == first); });
            if (k == 0) first = f->t;
            if (s.chance(20)) {
                P ct = f->t;
                auto& c = b->add_constant(blk, constant(ct), types::Scalar(ct));
                b->add_computational_memlet(blk, c, t, conns[k], {}, types::Scalar(ct));
            } else {
                auto& a = read[f->container];
                if (!a) a = &b->add_access(blk, f->container);
                b->add_computational_memlet(blk, *a, t, conns[k], sub(*f), *f->base);
            }
        }
        const Field* o;
        bool cmp = types_bool(code);
        if (cmp)
            o = place([&](P t) { return t == P::Bool || is_int(t); });
        else if (code == T::assign)
            o = place([&](P) { return true; });
        else {
            bool same = s.chance(80);
            o = place([&](P t) { return ok(t) && (!same || t == first); });
        }
        auto& a = b->add_access(blk, o->container);
        b->add_computational_memlet(blk, t, "_out", a, sub(*o), *o->base);
    }
    static bool types_bool(T c) { return (c >= T::fp_oeq && c <= T::fp_uno) || (c >= T::int_eq); }

    void cmath(cf::Sequence& q) {
        using F = math::cmath::CMathFunction;
        auto f = s.pick<F>({F::fabs, F::sqrt, F::floor, F::ceil, F::trunc, F::fmax, F::fmin, F::fmod, F::pow, F::exp, F::sin, F::rint, F::round, F::copysign, F::fma, F::cbrt, F::log});
        P t = s.chance(70) ? P::Double : P::Float;
        auto& blk = b->add_block(q);
        auto& l = b->add_library_node<math::cmath::CMathNode>(blk, DebugInfo(), f, t);
        std::map<std::string, data_flow::AccessNode*> read;
        for (auto& c : l.inputs()) {
            auto f = place([&](P z) { return z == t; });
            auto& a = read[f->container];
            if (!a) a = &b->add_access(blk, f->container);
            b->add_computational_memlet(blk, *a, l, c, sub(*f), *f->base);
        }
        auto o = place([&](P z) { return z == t; });
        auto& a = b->add_access(blk, o->container);
        b->add_computational_memlet(blk, l, l.outputs().at(0), a, sub(*o), *o->base);
    }
    control_flow::Assignments assigns() {
        control_flow::Assignments a;
        if (!s.chance(60)) return a;
        a[symbolic::symbol(regs[s.below(regs.size())])] = s.chance(12) ? symbolic::trunc_i32(x.expr(2)) : x.expr(1 + (int) s.below(4));
        return a;
    }
    // keep computed symbols visible in the output
    void publish(cf::Sequence& q) {
        auto& blk = b->add_block(q);
        auto& t = b->add_tasklet(blk, T::assign, "_out", {"_in"});
        auto& r = b->add_access(blk, regs[s.below(regs.size())]);
        auto& o = b->add_access(blk, nm(P::Int64));
        b->add_computational_memlet(blk, r, t, "_in", {}, types::Scalar(P::Int64));
        b->add_computational_memlet(blk, t, "_out", o, {num((long) s.below(LEN))}, types::Pointer(types::Scalar(P::Int64)));
    }
    symbolic::Condition condition() {
        if (s.chance(8)) {
            auto p = symbolic::symbol(nm(types[s.below(types.size())]));
            return s.flip() ? symbolic::Ne(p, symbolic::__nullptr__()) : symbolic::Eq(p, symbolic::__nullptr__());
        }
        return x.cond((int) s.below(3), 1 + (int) s.below(2));
    }
    void statements(cf::Sequence& q, int n) {
        for (int k = 0; k < n; ++k) statement(q);
    }
    void statement(cf::Sequence& q) {
        if (--budget < 0) return;
        switch (s.weighted({40, 12, 20, depth < 2 ? 12 : 0, depth < 2 ? 10 : 0, depth < 2 ? 4 : 0, 6})) {
            case 0: tasklet(q); break;
            case 1: cmath(q); break;
            case 2: {
                b->add_block(q, assigns());
                publish(q);
                break;
            }
            case 3: {
                ++depth;
                auto& ie = b->add_if_else(q, assigns());
                int n = 1 + (int) s.below(3);
                for (int k = 0; k < n; ++k) statements(b->add_case(ie, condition()), (int) s.below(3));
                --depth;
                break;
            }
            case 4: {
                ++depth;
                std::string v = "i" + std::to_string(loops++);
                b->add_container(v, types::Scalar(P::Int64));
                auto iv = symbolic::symbol(v);
                bool down = s.chance(30);
                auto bound = s.flip() ? num((long) s.below(5)) : symbolic::min(num(5), x.expr(2));
                auto init = down ? bound : num(0);
                auto cond = down ? symbolic::Gt(iv, num(0)) : symbolic::Lt(iv, bound);
                if (s.chance(20)) cond = symbolic::And(cond, x.compare(1));
                auto upd = symbolic::add(iv, num(down ? -1 : 1 + (long) s.below(2)));
                auto& body = s.chance(30) && !down
                                 ? (cf::StructuredLoop&) b->add_map(q, iv, cond, init, upd, cf::ScheduleType_Sequential::create(), assigns())
                                 : (cf::StructuredLoop&) b->add_for(q, iv, cond, init, upd, assigns());
                x.names.push_back(v);
                statements(body.root(), 1 + (int) s.below(3));
                x.names.pop_back();
                --depth;
                break;
            }
            case 5: {
                ++depth;
                auto& w = b->add_while(q, assigns());
                auto rg = symbolic::symbol(regs[s.below(regs.size())]);
                statements(w.root(), 1 + (int) s.below(2));
                auto& ie = b->add_if_else(w.root());
                auto& stop = b->add_case(ie, symbolic::Gt(rg, num((long) s.below(4))));
                b->add_break(stop);
                control_flow::Assignments a;
                a[rg] = symbolic::add(rg, num(1));
                b->add_block(w.root(), a);
                if (s.chance(30)) {
                    auto& ie2 = b->add_if_else(w.root());
                    b->add_continue(b->add_case(ie2, condition()));
                    statements(w.root(), 1);
                }
                --depth;
                break;
            }
            default: memory(q); break;
        }
    }
    // pointers into arrays, dereferences, block copies
    void memory(cf::Sequence& q) {
        P t = s.pick<P>({P::Double, P::Int64, P::Float, P::Int32});
        types::Pointer pt{types::Scalar(t)};
        std::string n = "p" + std::to_string(fresh++);
        b->add_container(n, s.flip() ? (const types::IType&) pt : (const types::IType&) types::Pointer());
        long off = (long) s.below(4);
        {
            auto& blk = b->add_block(q);
            auto& a = b->add_access(blk, nm(t));
            auto& p = b->add_access(blk, n);
            b->add_reference_memlet(blk, a, p, {num(off)}, pt);
        }
        switch (s.below(4)) {
            case 0: { // through the pointer
                auto& blk = b->add_block(q);
                auto& tk = b->add_tasklet(blk, T::assign, "_out", {"_in"});
                auto& a = b->add_access(blk, s.flip() ? n : nm(t));
                auto& o = b->add_access(blk, n);
                b->add_computational_memlet(blk, a, tk, "_in", {num((long) s.below(4))}, pt);
                b->add_computational_memlet(blk, tk, "_out", o, {num((long) s.below(4))}, pt);
                break;
            }
            case 1: { // v = *p, then *p2 = v
                std::string v = "v" + std::to_string(fresh++);
                b->add_container(v, types::Scalar(t));
                auto& blk = b->add_block(q);
                auto& p = b->add_access(blk, n);
                auto& d = b->add_access(blk, v);
                b->add_dereference_memlet(blk, p, d, true, pt);
                auto& blk2 = b->add_block(q);
                auto& a = b->add_access(blk2, v);
                auto& o = b->add_access(blk2, nm(t));
                b->add_dereference_memlet(blk2, a, o, false, pt);
                break;
            }
            case 2: {
                auto& blk = b->add_block(q);
                auto& src = b->add_access(blk, n);
                auto& dst = b->add_access(blk, nm(t));
                auto bytes = symbolic::mul(num((long) types::bit_width(t) / 8), num((long) s.below(4)));
                if (off >= 4 || s.flip()) {
                    auto& l = b->add_library_node<stdlib::MemmoveNode>(blk, DebugInfo(), bytes);
                    b->add_computational_memlet(blk, src, l, l.inputs().at(0), {}, pt);
                    b->add_computational_memlet(blk, l, l.outputs().at(0), dst, {}, pt);
                } else {
                    auto& l = b->add_library_node<stdlib::MemsetNode>(blk, DebugInfo(), num(s.flip() ? 0 : 1), bytes);
                    b->add_computational_memlet(blk, l, l.outputs().at(0), dst, {}, pt);
                }
                break;
            }
            default: { // a reinterpreted byte offset
                if (t == P::Int8 || cpp) break; // C++ code for pointers of another type is not valid (see DESIGN.md)
                auto& blk = b->add_block(q);
                auto& a = b->add_access(blk, n);
                auto& p = b->add_access(blk, n);
                b->add_reference_memlet(blk, a, p, {num((long) types::bit_width(t) / 8)}, types::Pointer(types::Scalar(P::Int8)));
                auto& blk2 = b->add_block(q);
                auto& tk = b->add_tasklet(blk2, T::assign, "_out", {"_in"});
                auto& c = b->add_constant(blk2, "1", types::Scalar(t));
                auto& o = b->add_access(blk2, n);
                b->add_computational_memlet(blk2, c, tk, "_in", {}, types::Scalar(t));
                b->add_computational_memlet(blk2, tk, "_out", o, {num((long) s.below(3))}, pt);
                break;
            }
        }
    }
    void field(const std::string& c, const types::IType& base, P t, data_flow::Subset tail = {}, bool no_index = false, long len = LEN) {
        Field f;
        f.container = c;
        f.tail = tail;
        f.t = t;
        f.base = base.clone();
        f.no_index = no_index;
        f.len = len;
        places.push_back(std::move(f));
    }
    Program make() {
        int rt = (int) s.weighted({40, 40, 20});
        b = std::make_unique<builder::StructuredSDFGBuilder>(
            "prog", FunctionType_CPU, types::Scalar(rt == 0 ? P::Void : rt == 1 ? P::Int64 : P::Double)
        );
        x.names = {"a", "b", "r0", "r1", "r2"};
        x.funcs = false;
        x.big = true;
        auto arg = [&](const std::string& n, P t) {
            b->add_container(n, types::Scalar(t), true);
            pr.scalars.push_back({n, t});
        };
        arg("a", P::Int64);
        arg("b", P::Int64);
        arg("x", P::Double);
        field("x", types::Scalar(P::Double), P::Double, {}, true);
        for (auto t : types) {
            if (t != P::Int64 && t != P::Double && s.chance(35)) continue;
            b->add_container(nm(t), types::Pointer(types::Scalar(t)), true);
            pr.arrays.push_back({nm(t), t, {LEN}, true, true});
            field(nm(t), types::Pointer(types::Scalar(t)), t);
        }
        if (!std::count_if(pr.arrays.begin(), pr.arrays.end(), [](auto& a) { return a.elem == P::Bool; })) types.pop_back();
        types.erase(std::remove_if(types.begin(), types.end(), [&](P t) { return std::none_of(pr.arrays.begin(), pr.arrays.end(), [&](auto& a) { return a.elem == t; }); }), types.end());
        for (auto t : {P::Float, P::Int32})
            if (std::find(types.begin(), types.end(), t) == types.end()) {
                b->add_container(nm(t), types::Pointer(types::Scalar(t)), true);
                pr.arrays.push_back({nm(t), t, {LEN}, true, true});
                field(nm(t), types::Pointer(types::Scalar(t)), t);
                types.push_back(t);
            }
        // multi-dimensional argument
        if (s.chance(40)) {
            types::Array row(types::Scalar(P::Double), num(4));
            types::Pointer pt(row);
            b->add_container("G", pt, true);
            pr.arrays.push_back({"G", P::Double, {3, 4}, true, true});
            field("G", pt, P::Double, {num((long) s.below(4))}, false, 3);
        }
        // structures
        if (s.chance(50)) {
            std::string sn = "S" + std::to_string(id);
            auto& d = b->add_structure(sn, s.chance(30));
            std::vector<P> m;
            int n = 1 + (int) s.below(4);
            for (int k = 0; k < n; ++k) {
                P t = types[s.below(types.size())];
                m.push_back(t);
                d.add_member(types::Scalar(t));
            }
            bool arr = s.chance(40);
            if (arr) d.add_member(types::Array(types::Scalar(P::Int32), num(3)));
            std::string outer = sn;
            bool nested = s.chance(40);
            if (nested) {
                auto& o = b->add_structure("R" + std::to_string(id), s.chance(20));
                o.add_member(types::Scalar(P::Int8));
                o.add_member(types::Structure(sn));
            }
            // local objects, written before read
            std::string c = "st";
            if (nested) {
                types::Array ty(types::Structure("R" + std::to_string(id)), num(2));
                b->add_container(c, ty);
                for (int k = 0; k < n; ++k) struct_init(c, ty, {num(1), num(k)}, m[k], 2);
                for (int k = 0; k < n; ++k) field(c, ty, m[k], {num(1), num(k)}, false, 2);
            } else {
                types::Array ty(types::Structure(sn), num(2));
                b->add_container(c, ty);
                for (int k = 0; k < n; ++k) struct_init(c, ty, {num(k)}, m[k], 2);
                for (int k = 0; k < n; ++k) field(c, ty, m[k], {num(k)}, false, 2);
                if (arr) {
                    for (int z = 0; z < 3; ++z) struct_init(c, ty, {num(n), num(z)}, P::Int32, 2);
                    field(c, ty, P::Int32, {num(n), num((long) s.below(3))}, false, 2);
                }
            }
        }
        for (auto& r : regs) b->add_container(r, types::Scalar(P::Int64));
        control_flow::Assignments z;
        for (auto& r : regs) z[symbolic::symbol(r)] = num((long) s.below(7) - 3);
        auto& root = b->subject().root();
        b->add_block(root, z);
        budget = 3 + s.size / 8;
        while (budget > 0) statement(root);
        if (rt == 1) {
            if (s.chance(70))
                b->add_return(root, regs[s.below(3)]);
            else
                b->add_constant_return(root, s.pick<std::string>({"0", "-1", "42"}), types::Scalar(P::Int64));
        } else if (rt == 2)
            b->add_return(root, "x");
        pr.sdfg = b->move();
        return std::move(pr);
    }
    void struct_init(const std::string& c, const types::IType& ty, data_flow::Subset tail, P t, long len) {
        for (long k = 0; k < len; ++k) {
            auto& blk = b->add_block(b->subject().root());
            auto& tk = b->add_tasklet(blk, T::assign, "_out", {"_in"});
            auto& v = b->add_constant(blk, t == P::Bool ? "true" : types::is_floating_point(t) ? "1.5" : std::to_string(3 + k), types::Scalar(t));
            auto& o = b->add_access(blk, c);
            data_flow::Subset sb{num(k)};
            for (auto& e : tail) sb.push_back(e);
            b->add_computational_memlet(blk, v, tk, "_in", {}, types::Scalar(t));
            b->add_computational_memlet(blk, tk, "_out", o, sb, ty);
        }
    }
};

static Val any_value(pbt::Src& s, uint64_t& st, P t) {
    uint64_t r = pbt::splitmix(st);
    if (types::is_floating_point(t)) {
        switch (r % 12) {
            case 0: return Val::real(t, NAN);
            case 1: return Val::real(t, INFINITY);
            case 2: return Val::real(t, -INFINITY);
            case 3: return Val::real(t, -0.0);
            case 4: return Val::real(t, t == P::Float ? (double) 0.1f : 0.1);
            default: return Val::real(t, (double) ((long) (r >> 8) % 33 - 16) / 2);
        }
    }
    if (t == P::Bool) return Val::integer(t, r & 1);
    switch (r % 6) {
        case 0: return Val::integer(t, wrap(t, (I) (int64_t) (r >> 3)));
        case 1: return Val::integer(t, wrap(t, -1 - (I) ((r >> 8) % 3)));
        case 2: return Val::integer(t, wrap(t, ((I) 1 << (types::bit_width(t) - 1)) - (I) ((r >> 8) % 2)));
        default: return Val::integer(t, wrap(t, (I) ((long) (r >> 8) % 33 - 16)));
    }
}

struct Sub {
    Program pr;
    std::vector<Input> ins;
    std::vector<Outcome> ref;
    std::string fn;
    bool ops;
    std::string text;
};

static std::string slurp(const std::string& p) {
    std::ifstream f(p);
    std::stringstream o;
    o << f.rdbuf();
    return o.str();
}
static const char* verif_dir() {
    const char* d = getenv("VERIF_DIR");
    return d ? d : "/verif";
}
static std::string repo_dir() {
    const char* d = getenv("VERIF_REPO");
    return d ? d : "/repo";
}
struct Scratch {
    std::string dir;
    Scratch() {
        char t[] = "/tmp/verif-cg-XXXXXX";
        if (!mkdtemp(t)) throw std::runtime_error("harness: no scratch directory");
        dir = t;
        std::ofstream(dir + "/cblas.h") << "#pragma once\n#ifdef __cplusplus\nextern \"C\" {\n#endif\n"
                                           "typedef enum {CblasRowMajor=101, CblasColMajor=102} CBLAS_LAYOUT;\n"
                                           "typedef enum {CblasNoTrans=111, CblasTrans=112, CblasConjTrans=113} CBLAS_TRANSPOSE;\n"
                                           "#ifdef __cplusplus\n}\n#endif\n";
    }
    ~Scratch() {
        std::error_code ec;
        std::filesystem::remove_all(dir, ec);
    }
};
static int run_compiler(std::vector<std::string> argv, const std::string& log) {
    std::vector<char*> a;
    for (auto& x : argv) a.push_back((char*) x.c_str());
    a.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 2, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0);
    pid_t pid;
    int e = posix_spawnp(&pid, a[0], &fa, nullptr, a.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    if (e) throw std::runtime_error("harness: cannot run the compiler");
    int st;
    while (waitpid(pid, &st, 0) < 0)
        if (errno != EINTR) throw std::runtime_error("harness: waitpid");
    if (WIFSIGNALED(st)) throw std::runtime_error("harness: compiler ended by a signal");
    return WEXITSTATUS(st);
}

static void prop(pbt::Src& s, pbt::Case& c) {
    bool cpp = s.chance(12);
    std::vector<Sub> subs;
    for (int k = 0; k < 6 && (k == 0 || s.chance(75)); ++k) {
        Sub u;
        u.ops = s.chance(55);
        if (u.ops) {
            OpGen g(s, k, cpp);
            u.pr = g.make();
        } else {
            Profile p;
            p.max_stmts = 6;
            p.stmt_budget = 20;
            p.after_loop_indvar = true;
            for (auto m : {"evolution", "rotated", "pointer walk", "guarded loop", "common assignment", "allocation", "same definitions", "common blocks", "trivial arrays", "truncation", "byte references"})
                if (s.chance(15)) p.motifs.insert(m);
            if (cpp) {
                p.motifs.erase("byte references");
                p.motifs.erase("pointer walk");
            }
            Gen gen(s, p);
            u.pr = gen.make();
        }
        bool any = false, ambiguous = false;
        int ni = 1 + (int) s.below(3);
        for (int q = 0; q < ni; ++q) {
            Input in = make_input(s, u.pr);
            if (u.ops) {
                uint64_t st = s.below(100000);
                for (auto& a : u.pr.arrays)
                    for (auto& v : in.arrays[a.name]) v = any_value(s, st, a.elem);
                for (auto& [nm, t] : u.pr.scalars)
                    in.scalars[nm] = types::is_floating_point(t) ? Val::real(t, (double) s.sym(5) / 2) : Val::integer(t, s.chance(90) ? s.range(-9, 9) : (I) s.pick<int64_t>({1L << 31, -(1L << 33), 1000003}));
            }
            RunOpts o;
            o.before = [](Interp& it) { it.ev.range64 = true; };
            auto r = u.ops ? execute(*u.pr.sdfg, u.pr, in, o) : reference(*u.pr.sdfg, u.pr, in, o);
            if (r.kind == Outcome::Unsup) throw std::runtime_error("harness: " + r.why);
            ambiguous |= r.ambiguous;
            any |= r.kind == Outcome::Done;
            if (getenv("CGDBG") && r.kind != Outcome::Done) std::ofstream("/tmp/cgdbg", std::ios::app) << (u.ops ? "ops " : "gen ") << r.why << "\n";
            u.ins.push_back(in);
            u.ref.push_back(r);
        }
        if (!any || ambiguous) continue;
        subs.push_back(std::move(u));
    }
    if (subs.empty()) c.discard();
    Scratch sc;
    std::string ext = cpp ? ".cpp" : ".c";
    std::ofstream all(sc.dir + "/all" + ext);
    for (size_t k = 0; k < subs.size(); ++k) {
        auto& u = subs[k];
        u.text = dump(*u.pr.sdfg) + "\n";
        builder::StructuredSDFGBuilder b(u.pr.sdfg);
        auto& sdfg = b.subject();
        analysis::AnalysisManager am(sdfg);
        auto plan = codegen::InstrumentationPlan::none(sdfg);
        auto cap = codegen::ArgCapturePlan::none(sdfg);
        std::string base = sc.dir + "/p" + std::to_string(k);
        auto gen = [&](codegen::CodeGenerator& g) {
            c.check(g.generate(), "the generator reports failure");
            c.check(g.as_source(base + ".h", base + ".inc"), "the generator cannot write the source");
        };
        std::unique_ptr<codegen::LanguageExtension> lang;
        if (cpp) {
            codegen::CPPCodeGenerator g(sdfg, am, *plan, *cap);
            gen(g);
            lang = std::make_unique<codegen::CPPLanguageExtension>(sdfg);
        } else {
            codegen::CCodeGenerator g(sdfg, am, *plan, *cap);
            gen(g);
            lang = std::make_unique<codegen::CLanguageExtension>(sdfg);
        }
        std::string src = slurp(base + ".inc");
        u.text += "--- code\n" + src + "\n";
        all << "#define prog prog" << k << "\n#include \"p" << k << ".inc\"\n#undef prog\n";
        if (cpp) all << "extern \"C\" ";
        all << "void call" << k << "(void** a, void* r) {\n  ";
        auto& rt = sdfg.return_type();
        bool isvoid = rt.type_id() == types::TypeID::Scalar && rt.primitive_type() == P::Void;
        if (!isvoid) all << lang->declaration("v", rt) << " = ";
        all << "prog" << k << "(";
        for (size_t i = 0; i < sdfg.arguments().size(); ++i) {
            auto& t = sdfg.type(sdfg.arguments()[i]);
            if (i) all << ", ";
            all << "*(" << lang->declaration("", types::Pointer(t)) << ") a[" << i << "]";
        }
        all << ");\n";
        if (!isvoid) all << "  memcpy(r, &v, sizeof v);\n";
        all << "}\n";
        u.pr.sdfg = b.move();
    }
    all.close();
    std::string so = sc.dir + "/all.so", log = sc.dir + "/log";
    std::vector<std::string> argv{cpp ? "g++" : "gcc", "-O0", "-w", "-fwrapv", "-funsigned-char", "-ffp-contract=off", "-fPIC", "-shared", "-I" + sc.dir,
                                  "-I" + repo_dir() + "/rtl/include", "-o", so, sc.dir + "/all" + ext, "-lm"};
    if (cpp) argv.push_back("-fpermissive"); // stack and heap allocations are printed without a cast
    int rc = run_compiler(argv, log);
    if (rc) {
        std::string l = slurp(log);
        if (l.find("No space left") != std::string::npos || l.find("out of memory") != std::string::npos || l.find("Cannot allocate") != std::string::npos)
            throw std::runtime_error("harness: " + l.substr(0, 200));
        for (auto& u : subs) c << u.text;
        c.fail("the generated code does not compile: " + l.substr(0, 600));
    }
    void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) c.fail(std::string("the generated code does not link: ") + dlerror());
    for (size_t k = 0; k < subs.size(); ++k) {
        auto& u = subs[k];
        auto call = (void (*)(void**, void*)) dlsym(h, ("call" + std::to_string(k)).c_str());
        if (!call) throw std::runtime_error("harness: no entry point");
        for (size_t q = 0; q < u.ins.size(); ++q) {
            if (u.ref[q].kind != Outcome::Done) continue;
            Memory mem;
            std::map<std::string, Region*> reg;
            std::map<std::string, uint64_t> slot;
            std::vector<void*> args;
            Interp it(*u.pr.sdfg, mem);
            for (auto& a : u.pr.arrays) {
                auto& v = u.ins[q].arrays.at(a.name);
                size_t es = prim_bytes(a.elem);
                Region& g = mem.alloc("*" + a.name, es * v.size(), true);
                for (size_t z = 0; z < v.size(); ++z) it.store_at((uintptr_t) g.base + z * es, a.elem, v[z], a.name);
                reg[a.name] = &g;
                slot[a.name] = (uint64_t) g.base;
            }
            for (auto& [nm, v] : u.ins[q].scalars) {
                uint64_t raw = 0;
                if (v.fp && v.t == P::Float) {
                    float f = (float) v.d;
                    memcpy(&raw, &f, 4);
                } else if (v.fp)
                    memcpy(&raw, &v.d, 8);
                else
                    raw = (uint64_t) v.i;
                slot[nm] = raw;
            }
            for (auto& a : u.pr.sdfg->arguments()) args.push_back(&slot.at(a));
            uint64_t res[2] = {0, 0};
            call(args.data(), res);
            Outcome o;
            o.kind = Outcome::Done;
            for (auto& [nm, g] : reg) o.bytes[nm] = std::string(g->base, g->size);
            auto& rt = u.pr.sdfg->return_type();
            o.has_result = u.ref[q].has_result;
            if (o.has_result) {
                P t = rt.primitive_type();
                if (t == P::Double) {
                    double d;
                    memcpy(&d, res, 8);
                    o.result = Val::real(t, d);
                } else
                    o.result = Val::integer(t, wrap(t, (I) (int64_t) res[0]));
            }
            std::string d = compare(u.ref[q], o, u.pr);
            if (!d.empty()) c << u.text;
            if (!d.empty()) c.fail(std::string(cpp ? "C++" : "C") + " code of program " + std::to_string(k) + " on " + u.ins[q].str() + ": " + d);
        }
        c.nontrivial(dump(*u.pr.sdfg));
        c.label(u.ops ? "operations" : "control flow");
    }
    c.label(cpp ? "C++" : "C");
    dlclose(h);
}

int main(int argc, char** argv) {
    codegen::register_default_dispatchers();
    pbt::Options o;
    o.id = CHECK_ID;
    o.rule = "a program with at least one defined run was compiled and executed, distinct by program";
    o.case_timeout_s = 100;
    o.quick = 1500;
    o.thorough = 40000;
    return pbt::Runner(o, prop).main(argc, argv);
}
