// Random structured SDFGs with defined behaviour, and the inputs to run them on.
#pragma once
#include "../pbt.h"
#include "dump.h"
#include "interp.h"
#include "sdfg/builder/structured_sdfg_builder.h"

namespace si {
using types::PrimitiveType;

struct Profile {
    int max_depth = 3;
    int max_stmts = 5;     // per sequence
    int stmt_budget = 14;  // in total
    bool maps = true, whiles = true, ifs = true, returns = true, refs = true, int_tasklets = true, two_d = true, libs = true;
    bool after_loop_indvar = true; // read a loop variable after the loop
    bool transitions = true;
    bool strides = true;      // loops with other shapes than 0..N step 1
    bool cond_symbols = true;
    bool derefs = false;
    bool heap = false;        // malloc'd temporaries
    bool float_type = true;
    bool wide_int = false;
    bool unsigned_sym = false;
    bool affine_only = false; // static control parts: affine bounds and indices only
    bool loop_heavy = false;
    std::set<std::string> motifs; // program shapes to favour
};

struct Iv {
    long lo, hi;
};

struct ArrayInfo {
    std::string name;
    PrimitiveType elem;
    std::vector<long> dims; // extents; first one for pointers is the allocation extent
    bool pointer;           // pointer argument (else transient array)
    bool arg;
};

struct Program {
    std::unique_ptr<StructuredSDFG> sdfg;
    std::vector<ArrayInfo> arrays;                // pointer arguments
    std::vector<std::pair<std::string, PrimitiveType>> scalars; // scalar arguments
};

class Gen {
public:
    pbt::Src& s;
    Profile p;
    std::unique_ptr<builder::StructuredSDFGBuilder> b;
    std::vector<ArrayInfo> arrays;
    std::vector<std::pair<std::string, PrimitiveType>> scalar_args;
    std::map<std::string, PrimitiveType> fscal; // floating-point scalars
    std::map<std::string, Iv> sym;              // integer symbols that may be read here
    std::map<std::string, Iv> decl;             // declared interval of the transient integer symbols
    std::set<std::string> init;                 // scalars and arrays that hold a value here
    int budget, loops_made = 0, ptrs_made = 0, labels = 0, map_depth = 0;
    std::vector<std::string> loop_vars;
    std::vector<std::string> assigned_in_loop; // unused
    PrimitiveType symt = PrimitiveType::Int64;
    // inside a map: array -> the only subset that may be used on it (written there)
    struct MapCtx {
        std::map<std::string, data_flow::Subset> owned;
        std::set<std::string> priv; // scalars each iteration writes before it reads
        std::string indvar;
    };
    std::vector<MapCtx> maps;
    std::set<std::string> frozen; // loop variables and bounds: not assignable
    int loop_depth = 0, while_depth = 0;
    struct Ptr {
        std::string name;
        std::string target;
        PrimitiveType elem;
        long lo, hi; // remaining extent around the pointer: p[-lo .. hi-1]
        bool valid = false;
    };
    std::vector<Ptr> ptrs;

    Gen(pbt::Src& s, Profile p) : s(s), p(p) {}

    symbolic::Expression num(long v) { return symbolic::integer(v); }
    symbolic::Symbol S(const std::string& n) { return symbolic::symbol(n); }

    // an affine expression over the visible symbols whose value lies in [lo, hi]
    std::pair<symbolic::Expression, Iv> index(long lo, long hi) {
        symbolic::Expression e = symbolic::zero();
        Iv iv{0, 0};
        std::vector<std::string> names;
        for (auto& [n, i] : sym)
            if (init.count(n)) names.push_back(n);
        int terms = names.empty() ? 0 : (int) s.weighted({25, 50, 20, 5});
        for (int k = 0; k < terms; ++k) {
            auto& n = names[s.below(names.size())];
            long c = s.pick<long>({1, 1, 1, 2, -1, 3});
            Iv x = sym[n];
            long a = std::min(c * x.lo, c * x.hi), z = std::max(c * x.lo, c * x.hi);
            if (iv.hi + z - (iv.lo + a) > hi - lo) continue;
            iv = {iv.lo + a, iv.hi + z};
            e = symbolic::add(e, symbolic::mul(num(c), S(n)));
        }
        // shift into range
        long room = (hi - lo) - (iv.hi - iv.lo);
        long sh = lo - iv.lo + (room > 0 ? (long) s.below(std::min<long>(room, 4) + 1) : 0);
        if (sh < 0 || iv.lo + sh < lo) {
            long need = lo - iv.lo;
            sh = std::max(sh, need);
        }
        if (iv.lo >= lo && iv.hi <= hi && s.below(2) == 0) sh = 0;
        e = symbolic::add(e, num(sh));
        iv = {iv.lo + sh, iv.hi + sh};
        if (p.motifs.count("truncation") && s.chance(35))
            e = symbolic::trunc_i32(s.chance(70) ? e : symbolic::add(e, num(s.flip() ? 4294967296L : -4294967296L)));
        return {e, iv};
    }
    std::pair<symbolic::Expression, Iv> small_expr() { return index(0, 9); }

    bool readable(const ArrayInfo& a) {
        if (!a.arg && !init.count(a.name)) return false;
        return true;
    }
    // subset for an access, honouring the surrounding maps: a map's body may only touch an array it writes at the
    // position its own loop variable gives, so that iterations stay independent
    bool subset(const ArrayInfo& a, bool write, data_flow::Subset& out) {
        for (size_t k = maps.size(); k-- > 0;) {
            auto it = maps[k].owned.find(a.name);
            if (it == maps[k].owned.end()) {
                if (write) return false; // an iteration of this map does not own it
                continue;
            }
            out = it->second;
            break;
        }
        for (size_t k = out.size(); k < a.dims.size(); ++k) out.push_back(index(0, a.dims[k] - 1).first);
        return true;
    }
    bool writable_scalar(const std::string& n) { return maps.empty() || maps.back().priv.count(n); }
    std::unique_ptr<types::IType> array_type(const ArrayInfo& a, bool access = false) {
        types::Scalar el(a.elem);
        if (access && a.pointer && p.motifs.count("tensors") && s.flip()) {
            symbolic::MultiExpression shape;
            for (auto d : a.dims) shape.push_back(num(d));
            if (a.dims.size() == 1 && s.chance(30)) return types::Tensor(el, {num(a.dims[0])}, {num(1)}, num(maps.empty() ? s.below(2) : 0)).clone();
            return types::Tensor(el, shape).clone();
        }
        std::unique_ptr<types::IType> t = el.clone();
        for (size_t k = a.dims.size(); k-- > (a.pointer ? 1 : 0);) t = std::make_unique<types::Array>(*t, num(a.dims[k]));
        if (a.pointer) return std::make_unique<types::Pointer>(*t);
        return t;
    }

    // ---- operands
    struct Operand {
        int kind; // 0 constant, 1 scalar, 2 array, 3 symbol, 4 pointer
        std::string name;
        PrimitiveType t;
        data_flow::Subset sub;
        std::unique_ptr<types::IType> base;
    };
    std::string const_text(PrimitiveType t) {
        if (types::is_floating_point(t)) return std::to_string(s.sym(4)) + ".0";
        return std::to_string(s.sym(5));
    }
    Operand operand(bool fp, PrimitiveType want) {
        std::vector<Operand> c;
        auto add = [&](int k, const std::string& n, PrimitiveType t) {
            Operand o;
            o.kind = k;
            o.name = n;
            o.t = t;
            c.push_back(std::move(o));
        };
        add(0, "", want);
        if (fp) {
            for (auto& [n, t] : fscal)
                if (t == want && init.count(n)) add(1, n, t), add(1, n, t);
        } else {
            for (auto& [n, i] : sym)
                if (init.count(n) && want == symt) add(3, n, symt);
        }
        for (auto& a : arrays)
            if (a.elem == want && readable(a)) add(2, a.name, a.elem), add(2, a.name, a.elem);
        for (auto& q : ptrs)
            if (q.valid && q.elem == want && maps.empty()) add(4, q.name, q.elem), add(4, q.name, q.elem);
        Operand o = std::move(c[s.below(c.size())]);
        if (o.kind == 0) {
            o.name = const_text(want);
            o.base = types::Scalar(want).clone();
        } else if (o.kind == 1 || o.kind == 3) {
            o.base = types::Scalar(o.t).clone();
        } else if (o.kind == 2) {
            for (auto& a : arrays)
                if (a.name == o.name) {
                    subset(a, false, o.sub);
                    o.base = array_type(a, true);
                }
        } else {
            for (auto& q : ptrs)
                if (q.name == o.name) {
                    o.sub = {index(-q.lo, q.hi - 1).first};
                    o.base = types::Pointer(types::Scalar(q.elem)).clone();
                }
        }
        return o;
    }
    bool target(bool fp, PrimitiveType want, Operand& o) {
        std::vector<std::pair<int, std::string>> c;
        if (fp) {
            for (auto& [n, t] : fscal)
                if (t == want && n[0] == 't' && writable_scalar(n)) c.push_back({1, n}), c.push_back({1, n});
        } else if (want == symt && p.int_tasklets && !p.affine_only) {
            for (auto& [n, i] : decl)
                if (!frozen.count(n) && maps.empty()) c.push_back({3, n});
        }
        for (auto& a : arrays)
            if (a.elem == want) {
                bool ok = maps.empty() || maps.back().owned.count(a.name) > 0;
                if (ok) c.push_back({2, a.name}), c.push_back({2, a.name}), c.push_back({2, a.name});
            }
        for (auto& q : ptrs)
            if (q.valid && q.elem == want && maps.empty()) c.push_back({4, q.name}), c.push_back({4, q.name});
        if (c.empty()) return false;
        auto [k, n] = c[s.below(c.size())];
        o.kind = k;
        o.name = n;
        o.t = want;
        if (k == 2) {
            for (auto& a : arrays)
                if (a.name == n) {
                    if (!subset(a, true, o.sub)) return false;
                    o.base = array_type(a, true);
                }
        } else if (k == 4) {
            for (auto& q : ptrs)
                if (q.name == n) {
                    o.sub = {index(-q.lo, q.hi - 1).first};
                    o.base = types::Pointer(types::Scalar(q.elem)).clone();
                }
        } else
            o.base = types::Scalar(want).clone();
        return true;
    }

    // ---- statements
    // one block of a few chained tasklets
    void block(cf::Sequence& parent) {
        auto assigns = transition();
        auto& blk = b->add_block(parent, assigns.first);
        fill_block(blk);
        after(assigns.second);
    }
    void fill_block(cf::Block& blk) {
        // last access node written per container in this block, to chain through
        std::map<std::string, data_flow::AccessNode*> last, read;
        std::set<std::string> touched;
        int n = 1 + (int) s.weighted({60, 25, 15});
        for (int k = 0; k < n; ++k) {
            PrimitiveType want;
            bool fp;
            int r = (int) s.weighted({70, p.float_type ? 10 : 0, p.int_tasklets ? 20 : 0});
            want = r == 0 ? PrimitiveType::Double : r == 1 ? PrimitiveType::Float : symt;
            fp = r != 2;
            tasklet(blk, fp, want, last, read, touched, k > 0);
        }
    }
    data_flow::TaskletCode pick_code(bool fp) {
        using T = data_flow::TaskletCode;
        if (fp) return s.pick<T>({T::assign, T::assign, T::fp_add, T::fp_sub, T::fp_mul, T::fp_neg, T::fp_add});
        return s.pick<T>({T::assign, T::int_add, T::int_sub, T::int_mul, T::int_smin, T::int_smax, T::int_and, T::int_add});
    }
    void tasklet(
        cf::Block& blk,
        bool fp,
        PrimitiveType want,
        std::map<std::string, data_flow::AccessNode*>& last,
        std::map<std::string, data_flow::AccessNode*>& readn,
        std::set<std::string>& touched,
        bool chained
    ) {
        using T = data_flow::TaskletCode;
        T code = pick_code(fp);
        std::vector<Operand> ins;
        size_t ar = data_flow::arity(code);
        for (size_t k = 0; k < ar; ++k) ins.push_back(operand(fp, want));
        if (chained) {
            // a block's components run in no particular order: later tasklets must be connected through a value
            // written here, and must not touch other containers that are written in this block
            std::vector<std::string> cand;
            for (auto& [n, a] : last) {
                auto pt = fscal.count(n) ? fscal[n] : (decl.count(n) ? symt : PrimitiveType::Void);
                if (pt == want) cand.push_back(n);
            }
            if (cand.empty()) return;
            Operand o;
            o.kind = fp ? 1 : 3;
            o.name = cand[s.below(cand.size())];
            o.t = want;
            o.base = types::Scalar(want).clone();
            ins[s.below(ins.size())] = std::move(o);
            for (auto& i : ins)
                if (i.kind != 0 && i.kind != 1 && i.kind != 3 && touched.count(alias(i.name))) return;
            for (auto& i : ins)
                if ((i.kind == 1 || i.kind == 3) && touched.count(i.name) && !last.count(i.name)) return;
            // subsets must not read symbols written in this block
            for (auto& i : ins)
                for (auto& e : i.sub)
                    for (auto& a : symbolic::atoms(e))
                        if (touched.count(a->get_name())) return;
        }
        Operand out;
        if (!target(fp, want, out)) return;
        if (chained) {
            if (touched.count(alias(out.name)) || readn.count(alias(out.name))) return;
            for (auto& e : out.sub)
                for (auto& a : symbolic::atoms(e))
                    if (touched.count(a->get_name())) return;
            if (out.kind == 3) {
                // every subset in this block is evaluated around the write of the symbol: keep them apart
                return;
            }
        }
        // aliasing pointers: reading and writing the same object in one tasklet is fine
        std::vector<std::string> conns;
        for (size_t k = 0; k < ar; ++k) conns.push_back("_in" + std::to_string(k + 1));
        auto& t = b->add_tasklet(blk, code, "_out", conns);
        std::map<std::string, data_flow::AccessNode*> here;
        for (size_t k = 0; k < ar; ++k) {
            auto& i = ins[k];
            data_flow::AccessNode* node;
            if (i.kind == 0) {
                node = &b->add_constant(blk, i.name, types::Scalar(i.t));
                b->add_computational_memlet(blk, *node, t, conns[k], {}, types::Scalar(i.t));
                continue;
            }
            if ((i.kind == 1 || i.kind == 3) && last.count(i.name))
                node = last[i.name];
            else if (here.count(i.name) && s.flip())
                node = here[i.name];
            else
                node = &b->add_access(blk, i.name);
            here[i.name] = node;
            readn[alias(i.name)] = node;
            b->add_computational_memlet(blk, *node, t, conns[k], i.sub, *i.base);
        }
        auto& dst = b->add_access(blk, out.name);
        b->add_computational_memlet(blk, t, "_out", dst, out.sub, *out.base);
        touched.insert(alias(out.name));
        if (out.kind == 1) {
            init.insert(out.name);
            last[out.name] = &dst;
        } else if (out.kind == 3) {
            sym_written(out.name);
            last[out.name] = &dst;
        } else if (out.kind == 2)
            ; // arrays are made readable by fill_array
    }
    std::string alias(const std::string& n) {
        for (auto& q : ptrs)
            if (q.name == n) return q.target;
        return n;
    }
    // a symbol that was computed by a tasklet: its value is not tracked, so it may not index anything until reassigned
    void sym_written(const std::string& n) {
        sym.erase(n);
        init.insert(n);
        wild.insert(n);
    }
    std::set<std::string> wild;

    std::pair<control_flow::Assignments, std::vector<std::pair<std::string, Iv>>> transition() {
        control_flow::Assignments a;
        std::vector<std::pair<std::string, Iv>> eff;
        if (!p.transitions || !s.chance(25)) return {a, eff};
        int n = 1 + (int) s.weighted({80, 20});
        std::set<std::string> lhs;
        std::set<std::string> used;
        for (int k = 0; k < n; ++k) {
            std::vector<std::string> c;
            for (auto& [d, i] : decl)
                if (!frozen.count(d) && maps.empty() && !lhs.count(d) && !used.count(d)) c.push_back(d);
            if (c.empty()) break;
            auto& d = c[s.below(c.size())];
            auto [e, iv] = sym_value(d);
            bool clash = false;
            for (auto& at : symbolic::atoms(e)) clash |= lhs.count(at->get_name()) > 0;
            if (clash) continue;
            for (auto& at : symbolic::atoms(e)) used.insert(at->get_name());
            lhs.insert(d);
            a[S(d)] = e;
            eff.push_back({d, iv});
        }
        return {a, eff};
    }
    std::pair<symbolic::Expression, Iv> sym_value(const std::string& d) {
        Iv dv = decl[d];
        if (init.count(d) && sym.count(d) && s.chance(35)) {
            long st = s.pick<long>({1, 1, 2, -1});
            return {symbolic::add(S(d), num(st)), dv};
        }
        auto [e, iv] = index(std::max(0L, dv.lo), std::min(9L, dv.hi));
        if (!p.affine_only && s.chance(15)) {
            std::vector<std::string> names;
            for (auto& [n, i] : sym)
                if (init.count(n)) names.push_back(n);
            if (!names.empty()) {
                auto& n = names[s.below(names.size())];
                switch (s.below(4)) {
                    case 0: e = symbolic::min(e, S(n)); break;
                    case 1: e = symbolic::max(e, S(n)); break;
                    case 2: e = symbolic::div(e, num(s.range(1, 3))); break;
                    default: e = symbolic::mod(e, num(s.range(1, 4))); break;
                }
            }
        }
        return {e, dv};
    }
    void after(const std::vector<std::pair<std::string, Iv>>& eff) {
        for (auto& [n, iv] : eff) {
            init.insert(n);
            wild.erase(n);
            sym[n] = decl[n];
        }
    }

    symbolic::Condition cond() {
        std::vector<std::string> names;
        for (auto& [n, i] : sym)
            if (init.count(n)) names.push_back(n);
        for (auto& n : wild)
            if (init.count(n) && !p.affine_only) names.push_back(n);
        if (names.empty()) return symbolic::Eq(num(s.below(2)), num(s.below(2)));
        auto one = [&]() -> symbolic::Condition {
            symbolic::Expression l = S(names[s.below(names.size())]);
            symbolic::Expression r = s.flip() ? symbolic::Expression(num(s.range(0, 6))) : symbolic::add(S(names[s.below(names.size())]), num(s.sym(1)));
            switch (s.below(6)) {
                case 0: return symbolic::Lt(l, r);
                case 1: return symbolic::Eq(l, r);
                case 2: return symbolic::Ne(l, r);
                case 3: return symbolic::Ge(l, r);
                case 4: return symbolic::Le(l, r);
                default: return symbolic::Gt(l, r);
            }
        };
        switch (s.weighted({70, 15, 15})) {
            case 0: return one();
            case 1: return symbolic::And(one(), one());
            default: return symbolic::Or(one(), one());
        }
    }

    std::string fresh_loop_var() {
        std::vector<std::string> c;
        for (auto& v : loop_vars)
            if (!frozen.count(v) && (maps.empty() || !init.count(v))) c.push_back(v);
        if (!c.empty() && s.chance(35)) return c[s.below(c.size())];
        std::string n = "i" + std::to_string(loops_made++);
        b->add_container(n, types::Scalar(symt));
        loop_vars.push_back(n);
        return n;
    }

    void loop(cf::Sequence& parent, int depth, bool as_map) {
        std::string iv = fresh_loop_var();
        if (!maps.empty()) map_vars.insert(iv);
        symbolic::Expression init_e, upd;
        symbolic::Condition c;
        Iv range;
        auto bound = [&]() -> std::pair<symbolic::Expression, Iv> {
            switch (s.weighted({50, 20, 30})) {
                case 0: return {S("N"), sym["N"]};
                case 1: return {S("M"), sym["M"]};
                default: {
                    long v = s.range(1, 6);
                    return {num(v), {v, v}};
                }
            }
        };
        auto [be, bv] = bound();
        // triangular bounds
        if (!loop_stack.empty() && s.chance(20)) {
            auto& o = loop_stack[s.below(loop_stack.size())];
            be = symbolic::add(S(o), num(s.range(0, 2)));
            bv = {sym[o].lo, sym[o].hi + 2};
        }
        int shape = p.strides ? (int) s.weighted({55, 12, 12, 8, 8, 5}) : 0;
        if (as_map && shape == 3) shape = 0;
        switch (shape) {
            case 0:
                init_e = num(0);
                c = symbolic::Lt(S(iv), be);
                upd = symbolic::add(S(iv), num(1));
                range = {0, std::max(0L, bv.hi - 1)};
                break;
            case 1: {
                long st = s.range(1, 2);
                init_e = num(st);
                c = symbolic::Lt(S(iv), be);
                upd = symbolic::add(S(iv), num(1));
                range = {st, std::max(st, bv.hi - 1)};
                break;
            }
            case 2: {
                init_e = num(0);
                c = symbolic::Lt(S(iv), be);
                upd = symbolic::add(S(iv), num(2));
                range = {0, std::max(0L, bv.hi - 1)};
                break;
            }
            case 3:
                init_e = symbolic::sub(be, num(1));
                c = symbolic::Ge(S(iv), num(0));
                upd = symbolic::sub(S(iv), num(1));
                range = {0, std::max(0L, bv.hi - 1)};
                break;
            case 4:
                init_e = num(0);
                c = symbolic::Le(S(iv), be);
                upd = symbolic::add(S(iv), num(1));
                range = {0, std::max(0L, bv.hi)};
                break;
            default: {
                auto [b2, bv2] = bound();
                init_e = num(0);
                c = symbolic::And(symbolic::Lt(S(iv), be), symbolic::Lt(S(iv), b2));
                upd = symbolic::add(S(iv), num(1));
                range = {0, std::max(0L, std::min(bv.hi, bv2.hi) - 1)};
                break;
            }
        }
        auto tr = transition();
        // the bound and everything it reads must not change in the body
        auto saved_frozen = frozen;
        auto saved_init = init;
        auto saved_sym = sym;
        auto saved_wild = wild;
        auto saved_ptrs = ptrs;
        frozen.insert(iv);
        for (auto& a : symbolic::atoms(be)) frozen.insert(a->get_name());
        sym[iv] = range;
        init.insert(iv);
        wild.erase(iv);
        cf::StructuredLoop* l;
        if (as_map) {
            l = &b->add_map(parent, S(iv), c, init_e, upd, cf::ScheduleType_Sequential::create(), tr.first);
            maps.push_back({});
            auto& m = maps.back();
            m.indvar = iv;
            // which arrays the map writes: at the position given by the loop variable
            for (auto& a : arrays) {
                if (!s.chance(50)) continue;
                size_t pos = 0;
                data_flow::Subset sub;
                if (maps.size() > 1) {
                    auto& o = maps[maps.size() - 2].owned;
                    auto it = o.find(a.name);
                    if (it == o.end() || it->second.size() == a.dims.size()) continue;
                    sub = it->second;
                    pos = sub.size();
                }
                if (range.hi + 3 >= a.dims[pos]) continue;
                sub.push_back(symbolic::add(S(iv), num(s.below(3))));
                m.owned[a.name] = sub;
            }
            for (auto& [n, t] : fscal)
                if (n[0] == 't' && s.flip() && (loop_depth + while_depth == 0 || !init.count(n))) {
                    m.priv.insert(n);
                    init.erase(n);
                }
        } else {
            l = &b->add_for(parent, S(iv), c, init_e, upd, tr.first);
        }
        loop_stack.push_back(iv);
        ++loop_depth;
        sequence(l->root(), depth + 1, true);
        --loop_depth;
        loop_stack.pop_back();
        std::set<std::string> ended_priv;
        if (as_map) {
            ended_priv = maps.back().priv;
            maps.pop_back();
        }
        // what the body wrote is not certain to hold afterwards
        auto inner_init = init;
        auto inner_wild = wild;
        frozen = saved_frozen;
        std::map<std::string, Iv> ns;
        for (auto& [n, i] : saved_sym)
            if (sym.count(n)) ns[n] = i;
        sym = ns;
        std::set<std::string> ni;
        for (auto& n : saved_init) ni.insert(n);
        init = ni;
        wild = saved_wild;
        for (auto& n : inner_wild)
            if (decl.count(n)) {
                sym.erase(n);
                wild.insert(n);
            }
        for (size_t k = 0; k < ptrs.size(); ++k)
            ptrs[k].valid = k < saved_ptrs.size() && saved_ptrs[k].valid && ptrs[k].valid && saved_ptrs[k].target == ptrs[k].target &&
                            saved_ptrs[k].lo == ptrs[k].lo && saved_ptrs[k].hi == ptrs[k].hi;
        if (as_map || !p.after_loop_indvar) {
            init.erase(iv);
            sym.erase(iv);
            if (as_map) {
                for (auto& n : ended_priv) init.erase(n);
                for (auto& n : map_vars) {
                    init.erase(n);
                    sym.erase(n);
                }
                if (!maps.empty())
                    maps.back().priv.insert(ended_priv.begin(), ended_priv.end());
                else
                    map_vars.clear();
            }
        } else {
            init.insert(iv);
            sym[iv] = {std::min(-1L, range.lo), std::max(range.hi + 2, 2L)};
        }
        after(tr.second);
    }
    std::vector<std::string> loop_stack;
    std::set<std::string> map_vars; // loop variables used inside the outermost map

    void if_else(cf::Sequence& parent, int depth) {
        auto tr = transition();
        auto& ie = b->add_if_else(parent, tr.first);
        int n = 1 + (int) s.weighted({40, 45, 15});
        auto s_init = init;
        auto s_sym = sym;
        auto s_wild = wild;
        auto s_ptrs = ptrs;
        std::vector<symbolic::Condition> conds;
        for (int k = 0; k < n; ++k) conds.push_back(cond());
        bool complete = n > 1 && s.flip();
        if (complete) conds[n - 1] = n == 2 ? symbolic::Not(conds[0]) : symbolic::Condition(symbolic::__true__());
        std::set<std::string> inter;
        std::map<std::string, Iv> isym = s_sym;
        std::set<std::string> uwild = s_wild;
        bool first = true;
        bool ptr_ok = true;
        for (int k = 0; k < n; ++k) {
            init = s_init;
            sym = s_sym;
            wild = s_wild;
            ptrs = s_ptrs;
            auto& c = b->add_case(ie, conds[k]);
            sequence(c, depth + 1, true);
            std::set<std::string> x;
            if (first)
                inter = init;
            else {
                for (auto& i : inter)
                    if (init.count(i)) x.insert(i);
                inter = x;
            }
            for (auto it = isym.begin(); it != isym.end();) it = sym.count(it->first) ? std::next(it) : isym.erase(it);
            for (auto& w : wild) uwild.insert(w);
            for (size_t q = 0; q < ptrs.size(); ++q)
                if (q >= s_ptrs.size() || ptrs[q].target != s_ptrs[q].target || ptrs[q].lo != s_ptrs[q].lo || ptrs[q].hi != s_ptrs[q].hi || !ptrs[q].valid) {
                    if (q < s_ptrs.size()) s_ptrs_bad.insert(q);
                }
            first = false;
        }
        if (!complete) {
            std::set<std::string> x;
            for (auto& i : inter)
                if (s_init.count(i)) x.insert(i);
            inter = x;
        }
        init = inter;
        sym = isym;
        wild = uwild;
        for (auto& w : wild) sym.erase(w);
        ptrs = s_ptrs;
        for (auto q : s_ptrs_bad) ptrs[q].valid = false;
        s_ptrs_bad.clear();
        (void) ptr_ok;
        after(tr.second);
    }
    std::set<size_t> s_ptrs_bad;

    // while with an explicit counter
    void while_loop(cf::Sequence& parent, int depth) {
        std::string k = fresh_loop_var();
        auto& pre = b->add_block(parent, {{S(k), num(0)}});
        (void) pre;
        auto saved_frozen = frozen;
        auto s_init = init;
        auto s_sym = sym;
        auto s_wild = wild;
        auto s_ptrs = ptrs;
        frozen.insert(k);
        sym[k] = {0, 6};
        init.insert(k);
        wild.erase(k);
        auto tr = transition();
        auto& w = b->add_while(parent, tr.first);
        // exit test at the start
        bool by_n = s.flip();
        symbolic::Expression bound = by_n ? symbolic::Expression(S("N")) : symbolic::Expression(num(s.range(1, 4)));
        auto& ie = b->add_if_else(w.root());
        auto& c = b->add_case(ie, symbolic::Ge(S(k), bound));
        if (s.chance(20)) block(c);
        b->add_break(c);
        if (s.flip()) {
            auto& rest = b->add_case(ie, symbolic::Lt(S(k), bound));
            if (s.flip()) block(rest);
        }
        loop_stack.push_back(k);
        ++while_depth;
        sequence(w.root(), depth + 1, true);
        if (s.chance(25)) {
            // conditional continue: the counter moves first
            auto& inc = b->add_block(w.root(), {{S(k), symbolic::add(S(k), num(1))}});
            (void) inc;
            auto& ie2 = b->add_if_else(w.root());
            auto& c2 = b->add_case(ie2, cond());
            s.flip() ? (void) b->add_continue(c2) : (void) b->add_break(c2);
            if (s.flip()) block(w.root());
        } else
            b->add_block(w.root(), {{S(k), symbolic::add(S(k), num(1))}});
        --while_depth;
        loop_stack.pop_back();
        auto inner_wild = wild;
        frozen = saved_frozen;
        std::map<std::string, Iv> ns;
        for (auto& [n, i] : s_sym)
            if (sym.count(n)) ns[n] = i;
        sym = ns;
        init = s_init;
        wild = s_wild;
        for (auto& n : inner_wild)
            if (decl.count(n)) {
                sym.erase(n);
                wild.insert(n);
            }
        for (size_t q = 0; q < ptrs.size(); ++q)
            ptrs[q].valid = q < s_ptrs.size() && s_ptrs[q].valid && ptrs[q].valid && s_ptrs[q].target == ptrs[q].target && s_ptrs[q].lo == ptrs[q].lo &&
                            s_ptrs[q].hi == ptrs[q].hi;
        init.insert(k);
        sym[k] = {0, 7};
        after(tr.second);
    }

    void reference(cf::Sequence& parent) {
        if (!maps.empty()) return;
        std::vector<const ArrayInfo*> c;
        for (auto& a : arrays)
            if (a.dims.size() == 1 && readable(a)) c.push_back(&a);
        if (c.empty()) return;
        auto& a = *c[s.below(c.size())];
        size_t k;
        std::vector<size_t> free_ptrs;
        for (size_t q = 0; q < ptrs.size(); ++q) free_ptrs.push_back(q);
        if (ptrs.size() < 2 || free_ptrs.empty()) {
            Ptr q;
            q.name = "p" + std::to_string(ptrs_made++);
            q.elem = a.elem;
            b->add_container(q.name, types::Pointer(types::Scalar(a.elem)));
            ptrs.push_back(q);
            k = ptrs.size() - 1;
        } else {
            k = s.below(ptrs.size());
            if (ptrs[k].elem != a.elem) return;
        }
        auto [e, iv] = index(0, a.dims[0] - 1);
        auto& blk = b->add_block(parent);
        auto& src = b->add_access(blk, a.name);
        auto& dst = b->add_access(blk, ptrs[k].name);
        data_flow::Subset sub{e};
        if (p.motifs.count("byte references") && s.chance(70)) {
            if (a.pointer && SymEngine::is_a<SymEngine::Integer>(*e) && s.flip()) {
                data_flow::Subset bs{symbolic::mul(e, num((long) prim_bytes(a.elem)))};
                b->add_reference_memlet(blk, src, dst, bs, types::Pointer(types::Scalar(PrimitiveType::Int8)));
            } else if (a.pointer) {
                e = num(0), iv = {0, 0};
                b->add_reference_memlet(blk, src, dst, {num(0)}, types::Pointer(types::Pointer(types::Scalar(a.elem))));
            } else
                b->add_reference_memlet(blk, src, dst, sub, *array_type(a));
        } else
            b->add_reference_memlet(blk, src, dst, sub, *array_type(a));
        ptrs[k].target = a.name;
        ptrs[k].lo = iv.lo;
        ptrs[k].hi = a.dims[0] - iv.hi;
        ptrs[k].valid = true;
    }

    // give a transient array a value everywhere
    void fill_array(cf::Sequence& parent, const ArrayInfo& a) {
        std::vector<symbolic::Expression> idx;
        cf::Sequence* cur = &parent;
        for (size_t k = 0; k < a.dims.size(); ++k) {
            std::string iv = "f" + std::to_string(loops_made++);
            b->add_container(iv, types::Scalar(symt));
            auto& l = b->add_for(*cur, S(iv), symbolic::Lt(S(iv), num(a.dims[k])), num(0), symbolic::add(S(iv), num(1)));
            cur = &l.root();
            idx.push_back(S(iv));
        }
        auto& blk = b->add_block(*cur);
        auto& dst = b->add_access(blk, a.name);
        auto& t = b->add_tasklet(blk, data_flow::TaskletCode::assign, "_out", {"_in"});
        auto& cst = b->add_constant(blk, const_text(a.elem), types::Scalar(a.elem));
        b->add_computational_memlet(blk, cst, t, "_in", {}, types::Scalar(a.elem));
        b->add_computational_memlet(blk, t, "_out", dst, idx, *array_type(a));
        init.insert(a.name);
    }

    void sequence(cf::Sequence& seq, int depth, bool nonempty) {
        size_t n = 0;
        if (nonempty && s.chance(97)) {
            statement(seq, depth);
            ++n;
        }
        while (budget > 0 && s.more(n, p.max_stmts, 1.6)) {
            statement(seq, depth);
            ++n;
        }
    }
    void statement(cf::Sequence& seq, int depth) {
        --budget;
        bool deep = depth >= p.max_depth || budget <= 0;
        int wl = deep ? 0 : (p.loop_heavy ? 50 : 26);
        int wm = deep || !p.maps || maps.size() > 1 ? 0 : 8;
        int wi = deep || !p.ifs ? 0 : 14;
        int ww = deep || !p.whiles || !maps.empty() ? 0 : 5;
        int wr = p.refs && maps.empty() ? 6 : 0;
        int ws = deep ? 0 : 3;
        int wret = p.returns && depth > 0 && maps.empty() ? 2 : 0;
        int wtemp = maps.empty() && depth == 0 ? 8 : 0;
        int wmotif = deep || !maps.empty() || p.motifs.empty() ? 0 : 45;
        switch (s.weighted({40, wl, wm, wi, ww, wr, ws, wret, wtemp, wmotif})) {
            case 0: block(seq); break;
            case 1: loop(seq, depth, false); break;
            case 2: loop(seq, depth, true); break;
            case 3: if_else(seq, depth); break;
            case 4: while_loop(seq, depth); break;
            case 5: reference(seq); break;
            case 6: {
                auto tr = transition();
                auto& q = b->add_sequence(seq, tr.first);
                sequence(q, depth + 1, true);
                after(tr.second);
                break;
            }
            case 7: {
                // leave early on some condition
                auto& ie = b->add_if_else(seq);
                auto& c = b->add_case(ie, cond());
                ret(c);
                break;
            }
            case 8: {
                for (auto& a : arrays)
                    if (!a.arg && !init.count(a.name)) {
                        fill_array(seq, a);
                        return;
                    }
                block(seq);
                break;
            }
            default: motif(seq, depth);
        }
    }

    // ---- shapes that particular passes look for
    void motif(cf::Sequence& seq, int depth) {
        auto it = p.motifs.begin();
        std::advance(it, s.below(p.motifs.size()));
        if (*it == "evolution") evolution(seq, depth);
        else if (*it == "rotated") rotated(seq, depth);
        else if (*it == "pointer walk") pointer_walk(seq, depth);
        else if (*it == "guarded loop") guarded_loop(seq, depth);
        else if (*it == "common assignment") common_assignment(seq, depth);
        else if (*it == "allocation") allocation(seq, depth);
        else if (*it == "same definitions") same_definitions(seq, depth);
        else if (*it == "common blocks") common_blocks(seq, depth);
        else block(seq);
    }
    std::string free_symbol() {
        std::vector<std::string> c;
        for (auto& [d, i] : decl)
            if (!frozen.count(d)) c.push_back(d);
        return c.empty() ? "" : c[s.below(c.size())];
    }
    // { k := a } for (i = 0; ..) { ...; k := k + c | f(i) | const }
    void evolution(cf::Sequence& seq, int depth) {
        std::string k = free_symbol();
        if (k.empty()) return block(seq);
        std::string iv = fresh_loop_var();
        if (iv == k) return block(seq);
        auto [a, av] = index(0, 3);
        bool separate = s.chance(30);
        if (separate) {
            b->add_block(seq, {{S(k), a}});
            init.insert(k), wild.erase(k), sym[k] = decl[k];
            if (s.flip()) block(seq);
        } else {
            b->add_block(seq, {{S(k), a}});
        }
        init.insert(k), wild.erase(k), sym[k] = decl[k];
        symbolic::Expression from = num(s.below(3)), step = num(s.chance(75) ? 1 : 2);
        symbolic::Expression to = s.flip() ? symbolic::Expression(S("N")) : symbolic::Expression(num(s.range(1, 5)));
        auto& l = b->add_for(seq, S(iv), symbolic::Lt(S(iv), to), from, symbolic::add(S(iv), step));
        auto sf = frozen;
        auto si = init;
        auto ss = sym;
        auto sp = ptrs;
        frozen.insert(iv);
        sym[iv] = {0, 6};
        init.insert(iv);
        loop_stack.push_back(iv);
        ++loop_depth;
        if (s.chance(90)) frozen.insert(k);
        sequence(l.root(), depth + 1, true);
        symbolic::Expression up;
        switch (s.below(6)) {
            case 0:
            case 1:
            case 2: up = symbolic::add(S(k), num(s.pick<long>({1, 1, 2, -1}))); break;
            case 3: up = symbolic::add(S(iv), num(s.below(2))); break;
            case 4: up = symbolic::add(S(k), s.flip() ? symbolic::Expression(S("M")) : symbolic::Expression(S(iv))); break;
            default: up = index(0, 6).first; break;
        }
        b->add_block(l.root(), {{S(k), up}});
        if (s.chance(25)) sequence(l.root(), depth + 1, false);
        --loop_depth;
        loop_stack.pop_back();
        auto w = wild;
        frozen = sf;
        init = si;
        std::map<std::string, Iv> ns;
        for (auto& [n, i] : ss)
            if (sym.count(n)) ns[n] = i;
        sym = ns;
        for (auto& n : w)
            if (decl.count(n)) sym.erase(n), wild.insert(n);
        for (size_t q = 0; q < ptrs.size(); ++q) ptrs[q].valid = q < sp.size() && sp[q].valid && ptrs[q].valid && sp[q].target == ptrs[q].target && sp[q].lo == ptrs[q].lo && sp[q].hi == ptrs[q].hi;
        if (!p.after_loop_indvar) init.erase(iv), sym.erase(iv);
        wild.erase(k);
        sym[k] = decl[k];
        if (s.flip()) block(seq);
    }
    // k := a; if (k < bound) while { ...; k := k + c; if (k < bound) continue else break }
    void rotated(cf::Sequence& seq, int depth) {
        std::string k = fresh_loop_var();
        auto [a, av] = index(0, 2);
        b->add_block(seq, {{S(k), a}});
        symbolic::Expression bound = s.flip() ? symbolic::Expression(S("N")) : symbolic::Expression(num(s.range(1, 5)));
        auto sf = frozen;
        auto si = init;
        auto ss = sym;
        auto sw = wild;
        auto sp = ptrs;
        init.insert(k), sym[k] = {0, 6}, frozen.insert(k);
        auto& guard = b->add_if_else(seq);
        auto& g = b->add_case(guard, symbolic::Lt(S(k), bound));
        auto& w = b->add_while(g);
        loop_stack.push_back(k);
        ++while_depth;
        bool pw = p.whiles;
        if (s.chance(90)) p.whiles = false;
        sequence(w.root(), depth + 1, true);
        long c = s.pick<long>({1, 1, 2});
        if (s.chance(15)) {
            // an update that is not unconditional: not a counted loop
            auto& ie = b->add_if_else(w.root());
            b->add_block(b->add_case(ie, cond()), {{S(k), symbolic::add(S(k), num(c))}});
            auto& ie2 = b->add_if_else(w.root());
            auto& bc = b->add_case(ie2, symbolic::Ge(S(k), bound));
            b->add_break(bc);
        } else {
            b->add_block(w.root(), {{S(k), symbolic::add(S(k), num(c))}});
        }
        if (s.chance(30)) sequence(w.root(), depth + 1, false);
        auto cnd = symbolic::Lt(S(k), bound);
        auto& e = b->add_if_else(w.root());
        if (s.flip()) {
            auto& c1 = b->add_case(e, cnd);
            b->add_continue(c1);
            auto& c2 = b->add_case(e, symbolic::Not(cnd));
            b->add_break(c2);
        } else {
            auto& c2 = b->add_case(e, symbolic::Not(cnd));
            b->add_break(c2);
            auto& c1 = b->add_case(e, cnd);
            b->add_continue(c1);
        }
        p.whiles = pw;
        --while_depth;
        loop_stack.pop_back();
        auto inner = wild;
        frozen = sf;
        init = si;
        wild = sw;
        std::map<std::string, Iv> ns;
        for (auto& [n, i] : ss)
            if (sym.count(n)) ns[n] = i;
        sym = ns;
        for (auto& n : inner)
            if (decl.count(n)) sym.erase(n), wild.insert(n);
        for (size_t q = 0; q < ptrs.size(); ++q) ptrs[q].valid = q < sp.size() && sp[q].valid && ptrs[q].valid && sp[q].target == ptrs[q].target && sp[q].lo == ptrs[q].lo && sp[q].hi == ptrs[q].hi;
        if (p.after_loop_indvar) init.insert(k), sym[k] = {0, 9};
        else init.erase(k), sym.erase(k);
    }
    // p = &A[a]; for (..) { use p[0]; p = &p[8] in bytes }
    void pointer_walk(cf::Sequence& seq, int depth) {
        std::string n = "w" + std::to_string(ptrs_made++);
        PrimitiveType el = s.chance(75) ? PrimitiveType::Double : PrimitiveType::Float;
        const ArrayInfo* src = nullptr;
        for (auto& a : arrays)
            if (a.elem == el && a.arg && a.dims.size() == 1 && (!src || s.flip())) src = &a;
        if (!src) return block(seq);
        b->add_container(n, types::Pointer(types::Scalar(el)));
        types::Pointer pt{types::Scalar(el)}, bytes{types::Scalar(PrimitiveType::Int8)};
        auto set = [&](cf::Sequence& where, const std::string& from, symbolic::Expression off, const types::IType& base) {
            auto& blk = b->add_block(where);
            auto& x = b->add_access(blk, from);
            auto& y = b->add_access(blk, n);
            b->add_reference_memlet(blk, x, y, {off}, base);
        };
        auto use = [&](cf::Sequence& where, bool other_offset) {
            auto& blk = b->add_block(where);
            auto& t = b->add_tasklet(blk, data_flow::TaskletCode::fp_add, "_out", {"_in1", "_in2"});
            auto& in = b->add_access(blk, n);
            data_flow::Subset z{num(other_offset ? 1 : 0)};
            b->add_computational_memlet(blk, in, t, "_in1", z, pt);
            auto& c = b->add_constant(blk, const_text(el), types::Scalar(el));
            b->add_computational_memlet(blk, c, t, "_in2", {}, types::Scalar(el));
            if (s.flip()) {
                auto& o = b->add_access(blk, n);
                b->add_computational_memlet(blk, t, "_out", o, z, pt);
            } else {
                std::vector<const ArrayInfo*> c2;
                for (auto& a : arrays)
                    if (a.elem == el && a.arg && a.dims.size() == 1) c2.push_back(&a);
                auto& a = *c2[s.below(c2.size())];
                auto& o = b->add_access(blk, a.name);
                b->add_computational_memlet(blk, t, "_out", o, {index(0, a.dims[0] - 1).first}, *array_type(a));
            }
        };
        set(seq, src->name, index(0, 8).first, pt);
        int outer = s.chance(25);
        cf::Sequence* at = &seq;
        auto open = [&](cf::Sequence& where) -> std::pair<cf::For*, std::string> {
            std::string iv = fresh_loop_var();
            symbolic::Expression from = num(s.chance(70) ? 0 : (long) s.below(3)), step = num(s.chance(85) ? 1 : 2);
            symbolic::Expression to = s.flip() ? symbolic::Expression(S("N")) : symbolic::Expression(num(s.range(1, 5)));
            auto& l = b->add_for(where, S(iv), symbolic::Lt(S(iv), to), from, symbolic::add(S(iv), step));
            frozen.insert(iv), sym[iv] = {0, 6}, init.insert(iv);
            return {&l, iv};
        };
        auto sf = frozen;
        std::vector<std::string> opened;
        if (outer) {
            auto [l, v] = open(*at);
            opened.push_back(v);
            at = &l->root();
            if (s.flip()) set(*at, src->name, index(0, 8).first, pt);
        }
        auto [l, v] = open(*at);
        opened.push_back(v);
        use(l->root(), s.chance(10));
        if (s.chance(30)) use(l->root(), false);
        long sz = (long) prim_bytes(el);
        if (s.chance(10)) {
            auto& ie = b->add_if_else(l->root());
            auto& c = b->add_case(ie, cond());
            set(c, n, num(sz), bytes);
        } else
            set(l->root(), n, num(s.chance(90) ? sz : 2 * sz), bytes);
        if (s.chance(10)) use(l->root(), false);
        init.erase(v), sym.erase(v);
        if (s.chance(30)) use(*at, false);
        frozen = sf;
        for (auto& o : opened) init.erase(o), sym.erase(o);
        if (s.chance(20)) use(seq, false);
    }
    // if (init < bound) { for (i = init; i < bound; ..) }
    void guarded_loop(cf::Sequence& seq, int depth) {
        auto tr = transition();
        auto& ie = b->add_if_else(seq, tr.first);
        symbolic::Expression bound = s.flip() ? symbolic::Expression(S("N")) : symbolic::Expression(S("M"));
        long from = (long) s.below(3);
        bool exact = s.chance(85);
        auto& c = b->add_case(ie, symbolic::Lt(num(exact ? from : from + 1), bound));
        std::string iv = fresh_loop_var();
        auto sf = frozen;
        auto si = init;
        auto ss = sym;
        auto sw = wild;
        auto sp = ptrs;
        auto in = transition();
        auto& l = b->add_for(c, S(iv), symbolic::Lt(S(iv), bound), num(from), symbolic::add(S(iv), num(1)), in.first);
        frozen.insert(iv), sym[iv] = {0, 6}, init.insert(iv);
        loop_stack.push_back(iv);
        ++loop_depth;
        sequence(l.root(), depth + 1, true);
        --loop_depth;
        loop_stack.pop_back();
        for (auto& [n, i] : in.second) wild.insert(n);
        auto inner = wild;
        frozen = sf, init = si, wild = sw;
        std::map<std::string, Iv> ns;
        for (auto& [n, i] : ss)
            if (sym.count(n)) ns[n] = i;
        sym = ns;
        for (auto& n : inner)
            if (decl.count(n)) {
                sym.erase(n);
                if (init.count(n)) wild.insert(n);
            }
        for (size_t q = 0; q < ptrs.size(); ++q) ptrs[q].valid = q < sp.size() && sp[q].valid && ptrs[q].valid && sp[q].target == ptrs[q].target && sp[q].lo == ptrs[q].lo && sp[q].hi == ptrs[q].hi;
        init.erase(iv), sym.erase(iv);
        after(tr.second);
    }
    // every branch ends with the same assignment
    void common_assignment(cf::Sequence& seq, int depth) {
        std::string k = free_symbol();
        if (k.empty() || !init.count(k)) {
            if (!k.empty()) b->add_block(seq, {{S(k), index(0, 4).first}}), init.insert(k), wild.erase(k), sym[k] = decl[k];
            else return block(seq);
        }
        auto e = s.chance(40) && sym.count(k) ? symbolic::add(S(k), num(1)) : index(0, 9).first;
        auto& ie = b->add_if_else(seq);
        auto c0 = cond();
        int n = 2 + (int) s.chance(20);
        bool complete = s.chance(60);
        for (int q = 0; q < n; ++q) {
            auto cnd = q == 0 ? c0 : (q + 1 == n && complete) ? (n == 2 ? symbolic::Not(c0) : symbolic::Condition(symbolic::__true__())) : cond();
            auto& c = b->add_case(ie, cnd);
            auto si = init;
            auto ss = sym;
            auto sw = wild;
            auto sp = ptrs;
            if (s.flip()) block(c);
            control_flow::Assignments as{{S(k), s.chance(90) ? e : index(0, 9).first}};
            b->add_block(c, as);
            init = si, sym = ss, wild = sw;
            for (auto& [d, i] : decl)
                if (d != k && init.count(d)) sym.erase(d), wild.insert(d);
            for (size_t q2 = 0; q2 < ptrs.size(); ++q2) ptrs[q2].valid = q2 < sp.size() && sp[q2].valid;
        }
        wild.erase(k), sym[k] = decl[k];
        block(seq);
    }
    // branches that start or end with the same block
    void common_blocks(cf::Sequence& seq, int depth) {
        auto& ie = b->add_if_else(seq);
        auto c0 = cond();
        std::vector<cf::Sequence*> cs;
        cs.push_back(&b->add_case(ie, c0));
        cs.push_back(&b->add_case(ie, s.chance(85) ? symbolic::Not(c0) : cond()));
        auto si = init;
        auto ss = sym;
        auto sw = wild;
        auto sp = ptrs;
        auto cost = [&](uint64_t seed, cf::Sequence& c) {
            // the same assignment built twice: through a fixed recipe
            auto& blk = b->add_block(c);
            auto& a = arrays[seed % 2]; // A or B
            auto& o = arrays[(seed / 2) % 2];
            auto& x = b->add_access(blk, a.name);
            auto& y = b->add_access(blk, o.name);
            auto& t = b->add_tasklet(blk, (seed / 4) % 2 ? data_flow::TaskletCode::assign : data_flow::TaskletCode::fp_neg, "_out", {"_in1"});
            b->add_computational_memlet(blk, x, t, "_in1", {num((seed / 8) % 5)}, *array_type(a));
            b->add_computational_memlet(blk, t, "_out", y, {num((seed / 40) % 5)}, *array_type(o));
        };
        uint64_t seed = s.below(400), seed2 = s.chance(90) ? seed : s.below(400);
        bool front = s.flip();
        for (int q = 0; q < 2; ++q) {
            init = si, sym = ss, wild = sw, ptrs = sp;
            if (front) cost(q ? seed2 : seed, *cs[q]);
            if (s.chance(60)) block(*cs[q]);
            if (!front) cost(q ? seed2 : seed, *cs[q]);
        }
        init = si, sym = ss;
        for (auto& [d, i] : decl)
            if (init.count(d)) sym.erase(d), wild.insert(d);
        ptrs = sp;
    }
    // t0 = c; ... t0 = c (same or different): one value or two?
    void same_definitions(cf::Sequence& seq, int depth) {
        std::vector<std::string> c;
        for (auto& [n, t] : fscal)
            if (n[0] == 't' && t == PrimitiveType::Double) c.push_back(n);
        if (c.empty()) return block(seq);
        auto n = c[s.below(c.size())];
        auto from = s.flip() ? std::string("alpha") : std::string("2.0");
        auto def = [&](cf::Sequence& q, const std::string& f) {
            auto& blk = b->add_block(q);
            auto& y = b->add_access(blk, n);
            bool cst = isdigit(f[0]);
            auto& t = b->add_tasklet(blk, s.chance(85) ? data_flow::TaskletCode::assign : data_flow::TaskletCode::fp_neg, "_out", {"_in"});
            auto& x = cst ? (data_flow::AccessNode&) b->add_constant(blk, f, types::Scalar(PrimitiveType::Double)) : b->add_access(blk, f);
            b->add_computational_memlet(blk, x, t, "_in", {}, types::Scalar(PrimitiveType::Double));
            b->add_computational_memlet(blk, t, "_out", y, {}, types::Scalar(PrimitiveType::Double));
        };
        def(seq, from);
        init.insert(n);
        if (s.flip()) statement(seq, depth + 1);
        if (s.flip()) {
            auto& ie = b->add_if_else(seq);
            def(b->add_case(ie, cond()), s.chance(80) ? from : std::string("3.0"));
        } else
            def(seq, s.chance(80) ? from : std::string("3.0"));
        block(seq);
    }
    // p = malloc(size); fill; use; free(p)
    void allocation(cf::Sequence& seq, int depth) {
        std::string n = "h" + std::to_string(ptrs_made++);
        types::Pointer pt{types::Scalar(PrimitiveType::Double)};
        b->add_container(n, pt);
        auto size = s.flip() ? symbolic::Expression(num(64)) : symbolic::mul(num(8), symbolic::add(S("N"), num(2)));
        bool heap = s.chance(70);
        int times = 1 + (int) s.chance(15);
        auto alloc = [&](cf::Sequence& q) {
            auto& blk = b->add_block(q);
            auto& y = b->add_access(blk, n);
            auto& l = heap ? (data_flow::LibraryNode&) b->add_library_node<stdlib::MallocNode>(blk, DebugInfo(), size)
                           : (data_flow::LibraryNode&) b->add_library_node<stdlib::AllocaNode>(blk, DebugInfo(), size);
            b->add_computational_memlet(blk, l, l.outputs().at(0), y, {}, pt);
        };
        auto access = [&](cf::Sequence& q, bool write) {
            auto& blk = b->add_block(q);
            auto& t = b->add_tasklet(blk, data_flow::TaskletCode::assign, "_out", {"_in"});
            auto& a = arrays[s.below(2)];
            data_flow::Subset hs{num(s.below(2))}, as{index(0, a.dims[0] - 1).first};
            auto& x = b->add_access(blk, write ? a.name : n);
            auto& y = b->add_access(blk, write ? n : a.name);
            b->add_computational_memlet(blk, x, t, "_in", write ? as : hs, write ? *array_type(a) : pt);
            b->add_computational_memlet(blk, t, "_out", y, write ? hs : as, write ? pt : *array_type(a));
        };
        auto release = [&](cf::Sequence& q) {
            if (!heap) return;
            auto& blk = b->add_block(q);
            auto& x = b->add_access(blk, n);
            auto& y = b->add_access(blk, n);
            auto& l = b->add_library_node<stdlib::FreeNode>(blk, DebugInfo());
            b->add_computational_memlet(blk, x, l, l.inputs().at(0), {}, pt);
            b->add_computational_memlet(blk, l, l.outputs().at(0), y, {}, pt);
        };
        for (int k = 0; k < times; ++k) {
            alloc(seq);
            for (int z = 0; z < 2; ++z) access(seq, true);
            if (s.flip()) statement(seq, depth + 1);
            access(seq, false);
            if (s.chance(75)) release(seq);
        }
    }
    bool has_ret_type = false;
    void ret(cf::Sequence& seq) {
        if (!has_ret_type) {
            b->add_return(seq, "");
            return;
        }
        std::vector<std::string> c;
        for (auto& [n, t] : fscal)
            if (t == PrimitiveType::Double && init.count(n)) c.push_back(n);
        if (c.empty() || s.chance(20))
            b->add_constant_return(seq, const_text(PrimitiveType::Double), types::Scalar(PrimitiveType::Double));
        else
            b->add_return(seq, c[s.below(c.size())]);
    }

    Program make() {
        budget = p.stmt_budget * (20 + s.size) / 120 + 2;
        has_ret_type = p.returns && s.chance(40);
        if (has_ret_type)
            b = std::make_unique<builder::StructuredSDFGBuilder>("prog", FunctionType_CPU, types::Scalar(PrimitiveType::Double));
        else
            b = std::make_unique<builder::StructuredSDFGBuilder>("prog", FunctionType_CPU);
        if (s.chance(30)) symt = PrimitiveType::Int32;
        types::Scalar st(symt);
        auto arg = [&](const std::string& n, PrimitiveType t) {
            b->add_container(n, types::Scalar(t), true);
            scalar_args.push_back({n, t});
            init.insert(n);
        };
        arg("N", symt);
        arg("M", symt);
        sym["N"] = {0, 6};
        sym["M"] = {0, 6};
        frozen.insert("N");
        frozen.insert("M");
        arg("alpha", PrimitiveType::Double);
        fscal["alpha"] = PrimitiveType::Double;
        auto parr = [&](const std::string& n, PrimitiveType t, std::vector<long> dims, bool is_arg) {
            ArrayInfo a{n, t, dims, is_arg, is_arg};
            b->add_container(n, *array_type(a), is_arg);
            arrays.push_back(a);
        };
        parr("A", PrimitiveType::Double, {40}, true);
        parr("B", PrimitiveType::Double, {40}, true);
        if (p.two_d) parr("D", PrimitiveType::Double, {12, 12}, true);
        if (p.int_tasklets) parr("K", symt, {40}, true);
        if (p.float_type) parr("F", PrimitiveType::Float, {40}, true);
        parr("T", PrimitiveType::Double, {16}, false);
        if (p.two_d && s.flip()) parr("U", PrimitiveType::Double, {10, 10}, false);
        if (p.motifs.count("trivial arrays")) {
            parr("Z", PrimitiveType::Double, {1, 8}, false);
            if (s.flip()) parr("Y", PrimitiveType::Double, {1}, false);
            if (s.flip()) parr("X", PrimitiveType::Double, {6, 1}, false);
        }
        int nt = (int) s.range(1, 3);
        for (int k = 0; k < nt; ++k) {
            std::string n = "t" + std::to_string(k);
            b->add_container(n, types::Scalar(PrimitiveType::Double));
            fscal[n] = PrimitiveType::Double;
        }
        if (p.float_type) {
            b->add_container("tf", types::Scalar(PrimitiveType::Float));
            fscal["tf"] = PrimitiveType::Float;
        }
        if (p.transitions || p.int_tasklets) {
            int ns = (int) s.range(1, 2);
            for (int k = 0; k < ns; ++k) {
                std::string n = "k" + std::to_string(k);
                b->add_container(n, st);
                decl[n] = {0, 9};
            }
        }
        sequence(b->subject().root(), 0, true);
        if (has_ret_type || (p.returns && s.chance(20))) ret(b->subject().root());
        Program pr;
        for (auto& a : arrays)
            if (a.arg) pr.arrays.push_back(a);
        pr.scalars = scalar_args;
        pr.sdfg = b->move();
        return pr;
    }
};

// ---------------------------------------------------------------------------------------------------------------
struct Input {
    std::map<std::string, Val> scalars;
    std::map<std::string, std::vector<Val>> arrays;
    std::string str() const {
        std::string r;
        for (auto& [n, v] : scalars) r += n + "=" + (v.fp ? std::to_string(v.d) : istr(v.i)) + " ";
        return r;
    }
};
inline Input make_input(pbt::Src& s, const Program& p) {
    Input in;
    for (auto& [n, t] : p.scalars)
        in.scalars[n] = types::is_floating_point(t) ? Val::real(t, (double) s.sym(3)) : Val::integer(t, s.range(0, 6));
    uint64_t fill = s.below(1000);
    for (auto& a : p.arrays) {
        size_t n = 1;
        for (auto d : a.dims) n *= d;
        auto& v = in.arrays[a.name];
        uint64_t st = fill + pbt::fnv(a.name);
        for (size_t k = 0; k < n; ++k) {
            int x = (int) (pbt::splitmix(st) % 17) - 8;
            v.push_back(types::is_floating_point(a.elem) ? Val::real(a.elem, x) : Val::integer(a.elem, wrap(a.elem, x)));
        }
    }
    return in;
}

struct Outcome {
    enum Kind { Done, Undef, Long, Unsup } kind = Done;
    std::string why;
    std::map<std::string, std::string> bytes; // final contents of the argument arrays
    bool has_result = false;
    Val result;
    bool ambiguous = false, saw_uninit = false;
    long steps = 0, map_iterations = 0;
};

struct RunOpts {
    Order order = Order::Forward;
    uint64_t seed = 1;
    long limit = 200000;
    bool uninit_is_error = true;
    bool strict = false;
    unsigned char garbage = 0x5a;
    Hooks* hooks = nullptr;
    std::function<void(Interp&)> before, after;
};

inline Outcome execute(const StructuredSDFG& f, const Program& p, const Input& in, const RunOpts& o = {}) {
    Outcome r;
    Memory mem;
    mem.garbage = o.garbage;
    Interp it(f, mem);
    it.map_order = o.order;
    it.shuffle_seed = o.seed;
    it.limit = o.limit;
    it.strict = o.strict;
    it.uninit_is_error = o.uninit_is_error;
    it.hooks = nullptr;
    std::map<std::string, Region*> reg;
    try {
        for (auto& [n, v] : in.scalars)
            if (f.exists(n)) it.bind(n, v);
        for (auto& a : p.arrays) {
            if (!f.exists(a.name)) throw Undefined("argument " + a.name + " disappeared");
            auto& v = in.arrays.at(a.name);
            size_t es = prim_bytes(a.elem);
            Region& g = mem.alloc("*" + a.name, es * v.size(), true);
            for (size_t k = 0; k < v.size(); ++k) it.store_at((uintptr_t) g.base + k * es, a.elem, v[k], a.name);
            reg[a.name] = &g;
            it.bind(a.name, Val::pointer((uintptr_t) g.base));
        }
        if (o.before) o.before(it);
        it.hooks = o.hooks;
        it.run();
        it.hooks = nullptr;
        if (o.after) o.after(it);
    } catch (const Undefined& e) {
        r.kind = Outcome::Undef;
        r.why = e.what();
    } catch (const TooLong& e) {
        r.kind = Outcome::Long;
        r.why = e.what();
    } catch (const Unsupported& e) {
        r.kind = Outcome::Unsup;
        r.why = e.what();
    }
    for (auto& [n, g] : reg) r.bytes[n] = std::string(g->base, g->size);
    r.has_result = it.has_result;
    r.result = it.result;
    r.ambiguous = it.ambiguous;
    r.saw_uninit = it.saw_uninit;
    r.steps = it.steps;
    r.map_iterations = it.map_iterations;
    return r;
}

// "" when b behaves as a does
inline std::string compare(const Outcome& a, const Outcome& b, const Program& p) {
    if (b.kind == Outcome::Undef) return "undefined behaviour: " + b.why;
    if (b.kind == Outcome::Long) return "does not terminate within the step limit";
    if (b.kind == Outcome::Unsup) return "";
    for (auto& arr : p.arrays) {
        auto& x = a.bytes.at(arr.name);
        auto& y = b.bytes.at(arr.name);
        if (x == y) continue;
        size_t es = prim_bytes(arr.elem);
        for (size_t k = 0; k * es < x.size(); ++k) {
            if (!memcmp(&x[k * es], &y[k * es], es)) continue;
            std::ostringstream o;
            auto show = [&](const std::string& z) {
                if (arr.elem == PrimitiveType::Double) {
                    double d;
                    memcpy(&d, &z[k * es], 8);
                    if (d != d) return std::string("nan");
                    return std::to_string(d);
                }
                if (arr.elem == PrimitiveType::Float) {
                    float d;
                    memcpy(&d, &z[k * es], 4);
                    if (d != d) return std::string("nan");
                    return std::to_string(d);
                }
                long v = 0;
                memcpy(&v, &z[k * es], es);
                return std::to_string(v);
            };
            auto sx = show(x), sy = show(y);
            if (sx == sy && (sx == "nan" || sx == "-nan")) continue;
            o << arr.name << "[" << k << "] is " << sy << ", expected " << sx;
            return o.str();
        }
    }
    if (a.has_result != b.has_result) return "return value present/absent";
    if (a.has_result) {
        bool same = a.result.fp ? (a.result.d == b.result.d || (a.result.d != a.result.d && b.result.d != b.result.d)) : a.result.i == b.result.i;
        if (!same) return "returned " + std::to_string(b.result.d) + ", expected " + std::to_string(a.result.d);
    }
    return "";
}

// What the program means: subscripts within their dimension, and map iterations that do not depend on their order.
inline Outcome reference(const StructuredSDFG& f, const Program& p, const Input& in, RunOpts o = {}) {
    o.strict = true;
    o.order = Order::Forward;
    Outcome r = execute(f, p, in, o);
    if (r.kind != Outcome::Done) return r;
    for (auto ord : {Order::Backward, Order::Shuffled}) {
        RunOpts q = o;
        q.order = ord;
        q.hooks = nullptr;
        Outcome x = execute(f, p, in, q);
        if (!compare(r, x, p).empty()) {
            r.kind = Outcome::Undef;
            r.why = "map iterations depend on their order";
            break;
        }
        if (x.map_iterations == 0) break;
    }
    return r;
}

} // namespace si
