// Serialised and cloned programs are the program that was serialised or cloned.
#include "exprs.h"
#include "fulldump.h"
#include "gen.h"
#include "sdfg/data_flow/library_nodes/math/tensor/elementwise_ops/cast_node.h"
#include "sdfg/deepcopy/structured_sdfg_deep_copy.h"
#include "sdfg/serializer/json_serializer.h"
using namespace si;
using namespace math;

struct Deco {
    pbt::Src& s;
    builder::StructuredSDFGBuilder& b;
    ExprGen x{s};
    std::vector<std::string> structs;
    int fresh = 0;

    std::string text() {
        static const std::vector<std::string> pool{"", "a", "main.c", "/tmp/x y.py", "f<int>(a, b)", "quote\"inside", "back\\slash", "line\nbreak", "\xc3\xa4\xe2\x82\xac", "0", "null", "true", "[1, 2]", "\t"};
        return pool[s.below(pool.size())] + (s.chance(30) ? std::to_string(s.below(100)) : "");
    }
    DebugInfo debug() {
        if (s.chance(40)) return DebugInfo();
        size_t a = s.below(1000), b2 = s.below(80);
        if (s.flip()) return DebugInfo(text(), a, b2, a + s.below(5), s.below(90));
        return DebugInfo(text(), text(), a, b2, a + s.below(5), s.below(90));
    }
    types::StorageType stor() {
        types::StorageType t = s.pick<types::StorageType>({types::StorageType::CPU_Stack(), types::StorageType::CPU_Heap(), types::StorageType::NV_Generic(), types::StorageType::NV_Global(),
                                                           types::StorageType::NV_Shared(), types::StorageType::NV_Constant(), types::StorageType::NV_Symbol(), types::StorageType("ext storage")});
        if (s.chance(30)) t.allocation_size(x.expr(2));
        if (s.chance(30)) t.allocation(types::StorageType::Managed);
        if (s.chance(30)) t.deallocation(types::StorageType::Managed);
        if (s.chance(20)) t.arg1(x.expr(2));
        return t;
    }
    types::PrimitiveType prim() { return (types::PrimitiveType) s.below(19); }
    types::Scalar scalar() { return s.flip() ? types::Scalar(prim()) : types::Scalar(stor(), s.below(65), text(), prim()); }
    std::unique_ptr<types::IType> type(int d) {
        bool plain = s.flip();
        switch (s.weighted({30, d > 0 ? 20 : 0, d > 0 ? 20 : 0, 8, structs.empty() ? 0 : 12, d > 0 ? 10 : 0, d > 0 ? 12 : 0})) {
            case 0: return scalar().clone();
            case 1: {
                auto e = type(d - 1);
                if (plain) return std::make_unique<types::Array>(*e, x.expr(2));
                return std::make_unique<types::Array>(stor(), s.below(65), text(), *e, x.expr(2));
            }
            case 2: {
                auto e = type(d - 1);
                if (plain) return std::make_unique<types::Pointer>(*e);
                return std::make_unique<types::Pointer>(stor(), s.below(65), text(), *e);
            }
            case 3:
                if (plain) return std::make_unique<types::Pointer>();
                return std::make_unique<types::Pointer>(stor(), s.below(65), text());
            case 4: {
                auto n = structs[s.below(structs.size())];
                if (plain) return std::make_unique<types::Structure>(n);
                return std::make_unique<types::Structure>(stor(), s.below(65), text(), n);
            }
            case 5: {
                auto r = type(d - 1);
                auto f = plain ? std::make_unique<types::Function>(*r, s.flip()) : std::make_unique<types::Function>(stor(), s.below(65), text(), *r, s.flip());
                int n = (int) s.below(4);
                for (int k = 0; k < n; ++k) f->add_param(*type(d - 1));
                return f;
            }
            default: {
                int n = (int) s.below(4);
                symbolic::MultiExpression sh, st;
                for (int k = 0; k < n; ++k) sh.push_back(x.expr(1)), st.push_back(x.expr(1));
                auto e = scalar();
                if (plain && s.flip()) return std::make_unique<types::Tensor>(e, sh);
                if (plain) return std::make_unique<types::Tensor>(e, sh, st, x.expr(1));
                return std::make_unique<types::Tensor>(stor(), s.below(65), text(), e, sh, st, x.expr(1));
            }
        }
    }
    std::vector<symbolic::Expression> shape(int lo = 1) {
        std::vector<symbolic::Expression> v;
        int n = lo + (int) s.below(4);
        for (int k = 0; k < n; ++k) v.push_back(x.expr(1));
        return v;
    }
    std::vector<int64_t> ints() {
        std::vector<int64_t> v;
        int n = 1 + (int) s.below(3);
        for (int k = 0; k < n; ++k) v.push_back((long) s.below(6) - 2);
        return v;
    }
    std::vector<std::string> conns(const char* p, int lo) {
        std::vector<std::string> v;
        int n = lo + (int) s.below(3);
        for (int k = 0; k < n; ++k) v.push_back(p + std::to_string(k));
        return v;
    }
    data_flow::LibraryNode& library(cf::Block& blk) {
        auto d = debug();
        auto e = [&] { return x.expr(2); };
        auto cm = [&] { return (cmath::CMathFunction) s.below((int) cmath::CMathFunction::fma + 1); };
        auto impl = data_flow::ImplementationType(s.pick<std::string>({"", "BLAS", "CUBLASWithTransfers", "other"}));
#define UNARY(N) return b.add_library_node<tensor::N>(blk, d, shape())
#define REDUCE(N) return b.add_library_node<tensor::N>(blk, d, shape(), ints(), s.flip())
        switch (s.below(45)) {
            case 0: return b.add_library_node<stdlib::MallocNode>(blk, d, e());
            case 1: return b.add_library_node<stdlib::AllocaNode>(blk, d, e());
            case 2: return b.add_library_node<stdlib::CallocNode>(blk, d, e(), e());
            case 3: return b.add_library_node<stdlib::FreeNode>(blk, d);
            case 4: return b.add_library_node<stdlib::MemcpyNode>(blk, d, e());
            case 5: return b.add_library_node<stdlib::MemmoveNode>(blk, d, e());
            case 6: return b.add_library_node<stdlib::MemsetNode>(blk, d, e(), e());
            case 7: return b.add_library_node<stdlib::TrapNode>(blk, d);
            case 8: return b.add_library_node<stdlib::UnreachableNode>(blk, d);
            case 9: {
                std::unordered_map<std::string, std::string> m;
                for (int k = (int) s.below(3); k > 0; --k) m["k" + text()] = text();
                return b.add_library_node<data_flow::MetadataNode>(blk, d, conns("_out", 0), conns("_in", 0), m);
            }
            case 10: return b.add_library_node<data_flow::BarrierLocalNode>(blk, d);
            case 11: return b.add_library_node<data_flow::CallNode>(blk, d, "callee" + std::to_string(s.below(3)), conns("_out", 0), conns("_in", 0));
            case 12: return b.add_library_node<data_flow::InvokeNode>(blk, d, "callee" + std::to_string(s.below(3)), conns("_out", 0), conns("_in", 0));
            case 13: {
                auto t = type(1);
                std::unique_ptr<data_flow::ConstSource> src;
                if (s.flip()) {
                    std::vector<uint8_t> v;
                    for (int k = (int) s.below(20); k > 0; --k) v.push_back((uint8_t) s.below(256));
                    src = std::make_unique<data_flow::InMemoryConstSource>(std::move(v));
                } else
                    src = std::make_unique<data_flow::RawFileConstSource>("/dir with space/x" + std::to_string(s.below(9)) + ".bin", s.below(1 << 20));
                return b.add_library_node<data_flow::LoadConstNode>(blk, d, std::move(t), std::move(src));
            }
            case 14: return b.add_library_node<cmath::CMathNode>(blk, d, cm(), s.pick<types::PrimitiveType>({types::PrimitiveType::Float, types::PrimitiveType::Double}));
            case 15: {
                auto p = s.pick<blas::BLAS_Precision>({blas::h, blas::s, blas::d, blas::c, blas::z});
                return b.add_library_node<blas::DotNode>(blk, d, impl, p, e(), e(), e());
            }
            case 16: {
                auto p = s.pick<blas::BLAS_Precision>({blas::h, blas::s, blas::d, blas::c, blas::z});
                auto l = s.pick<blas::BLAS_Layout>({blas::RowMajor, blas::ColMajor});
                auto ta = s.pick<blas::BLAS_Transpose>({blas::No, blas::Trans, blas::ConjTrans}), tb = s.pick<blas::BLAS_Transpose>({blas::No, blas::Trans, blas::ConjTrans});
                return b.add_library_node<blas::GEMMNode>(blk, d, impl, p, l, ta, tb, e(), e(), e(), e(), e(), e());
            }
            case 17: return b.add_library_node<tensor::BroadcastNode>(blk, d, shape(), shape());
            case 18: return b.add_library_node<tensor::ConvNode>(blk, d, shape(), shape(), shape(), shape(), shape(), e(), e());
            case 19: {
                auto sh = shape();
                std::vector<int64_t> perm;
                for (size_t k = 0; k < sh.size(); ++k) perm.push_back(k);
                for (size_t k = perm.size(); k > 1; --k) std::swap(perm[k - 1], perm[s.below(k)]);
                return b.add_library_node<tensor::TransposeNode>(blk, d, sh, perm);
            }
            case 20: {
                auto a = shape(2), w = shape(2);
                if (s.flip()) return b.add_library_node<tensor::MatMulNode>(blk, d, a, w);
                return b.add_library_node<tensor::MatMulNode>(blk, d, a, w, shape(2), shape(2), e(), e());
            }
            case 21: UNARY(AbsNode);
            case 22: UNARY(AddNode);
            case 23: UNARY(DivNode);
            case 24: UNARY(EluNode);
            case 25: UNARY(ExpNode);
            case 26: UNARY(ErfNode);
            case 27: UNARY(HardSigmoidNode);
            case 28: UNARY(LeakyReLUNode);
            case 29: UNARY(MulNode);
            case 30: UNARY(PowNode);
            case 31: UNARY(ReLUNode);
            case 32: UNARY(SigmoidNode);
            case 33: UNARY(SqrtNode);
            case 34: UNARY(SubNode);
            case 35: UNARY(TanhNode);
            case 36: UNARY(MinimumNode);
            case 37: UNARY(MaximumNode);
            case 38: UNARY(FillNode);
            case 39: {
                auto code = (data_flow::TaskletCode) s.below(52);
                return b.add_library_node<tensor::TaskletTensorNode>(blk, d, code, std::vector<std::string>{"_out"}, conns("_in", 1), shape());
            }
            case 40: return b.add_library_node<tensor::CMathTensorNode>(blk, d, cm(), std::vector<std::string>{"_out"}, conns("_in", 1), shape());
            case 41: {
                switch (s.below(3)) {
                    case 0: REDUCE(SumNode);
                    case 1: REDUCE(MaxNode);
                    default: REDUCE(MinNode);
                }
            }
            case 42: return b.add_library_node<tensor::SoftmaxNode>(blk, d, shape(), ints(), false);
            case 43: {
                if (s.flip()) REDUCE(MeanNode);
                REDUCE(StdNode);
            }
            default: return b.add_library_node<tensor::CastNode>(blk, d, shape(), prim());
        }
    }
    void annotate(Element& e) {
        if (s.flip()) e.set_debug_info(debug());
    }
    void walk(cf::Sequence& q) {
        for (size_t i = 0; i < q.size(); ++i) {
            auto c = q.at(i);
            annotate(c.first);
            annotate(c.second);
            if (auto x = dynamic_cast<cf::Sequence*>(&c.first)) walk(*x);
            else if (auto x = dynamic_cast<cf::StructuredLoop*>(&c.first)) {
                annotate(x->root());
                if (auto m = dynamic_cast<cf::Map*>(x); m && s.flip()) schedule(*m);
                walk(x->root());
            } else if (auto x = dynamic_cast<cf::While*>(&c.first)) {
                annotate(x->root());
                walk(x->root());
            } else if (auto x = dynamic_cast<cf::IfElse*>(&c.first)) {
                for (size_t k = 0; k < x->size(); ++k) annotate(x->at(k).first), walk(x->at(k).first);
            } else if (auto x = dynamic_cast<cf::Block*>(&c.first)) {
                for (auto& n : x->dataflow().nodes()) annotate(n);
                for (auto& m : x->dataflow().edges()) annotate(m);
            }
        }
    }
    std::vector<std::pair<cf::Map*, cf::ScheduleType>> schedules;
    void schedule(cf::Map& m) {
        auto st = s.flip() ? cf::ScheduleType_Sequential::create()
                           : cf::ScheduleType(s.pick<std::string>({"CPU_PARALLEL", "CUDA", "highway"}), (cf::ScheduleTypeCategory) s.below(4));
        for (int k = (int) s.below(3); k > 0; --k) st.set_property("p" + text(), text());
        b.update_schedule_type(m, st);
        schedules.push_back({&m, st});
    }
};

// library nodes of every kind, with any parameters, through the data-flow part of the serialiser
static void libraries(pbt::Src& s, pbt::Case& c) {
    builder::StructuredSDFGBuilder b("lib", FunctionType_CPU), nb("lib", FunctionType_CPU), cb("lib", FunctionType_CPU);
    Deco d{s, b};
    d.x.big = true;
    auto& blk = b.add_block(b.subject().root(), {}, d.debug());
    int n = 1 + (int) s.below(4);
    for (int k = 0; k < n; ++k) {
        auto& l = d.library(blk);
        c.label("library " + l.code().value());
        if (s.chance(30)) l.implementation_type() = data_flow::ImplementationType(s.pick<std::string>({"", "BLAS", "x"}));
    }
    FullDumper x;
    x.block(blk);
    std::string before = x.o.str();
    c << before;
    c.nontrivial(before);
    serializer::JSONSerializer ser;
    nlohmann::json j;
    ser.dataflow_to_json(j, blk.dataflow());
    nlohmann::json j2 = nlohmann::json::parse(j.dump());
    auto& blk2 = nb.add_block(nb.subject().root());
    ser.json_to_dataflow(j2, nb, blk2);
    FullDumper y;
    y.block(blk2);
    std::string diff = first_difference(before, y.o.str());
    if (!diff.empty()) c.fail("deserialising what was serialised gives a different library node\n" + diff);
    auto& blk3 = cb.add_block(cb.subject().root(), blk.dataflow());
    FullDumper z, z0;
    z.ids = z0.ids = false;
    z.block(blk3);
    z0.block(blk);
    diff = first_difference(z0.o.str(), z.o.str());
    if (!diff.empty()) c.fail("copying a block gives a different library node\n" + diff);
}

static void prop(pbt::Src& s, pbt::Case& c) {
    if (s.chance(40)) return libraries(s, c);
    Profile p;
    p.max_stmts = 5;
    p.stmt_budget = 14;
    for (auto m : {"byte references", "tensors", "allocation", "truncation", "pointer walk"})
        if (s.chance(20)) p.motifs.insert(m);
    Gen gen(s, p);
    Program pr = gen.make();
    builder::StructuredSDFGBuilder b(pr.sdfg);
    Deco d{s, b};
    d.x.big = true;
    d.x.sizes = true;
    // structures, containers, externals
    int ns = (int) s.below(3);
    for (int k = 0; k < ns; ++k) {
        auto& def = b.add_structure("struct_" + std::to_string(k), s.flip());
        int m = (int) s.below(4);
        for (int j = 0; j < m; ++j) def.add_member(*d.type(1));
        d.structs.push_back(def.name());
    }
    for (auto n : {"extra_sym", "extra_i", "i", "j", "k", "N", "M"})
        if (!b.subject().exists(n)) b.add_container(n, types::Scalar(types::PrimitiveType::Int64));
    int nc = (int) s.below(5);
    for (int k = 0; k < nc; ++k) {
        auto t = d.type(2);
        if (t->type_id() == types::TypeID::Tensor) t = std::make_unique<types::Pointer>(*t); // containers have no tensor type
        b.add_container("extra_" + std::to_string(k), *t);
    }
    int ne = (int) s.below(3);
    for (int k = 0; k < ne; ++k) {
        auto t = s.flip() ? d.type(1) : std::unique_ptr<types::IType>(new types::Pointer(d.scalar()));
        b.add_external("ext_" + std::to_string(k), *t, s.flip() ? LinkageType_External : LinkageType_Internal);
    }
    for (int k = (int) s.below(3); k > 0; --k) b.subject().add_metadata("m" + d.text(), d.text());
    // control flow the generator does not make, in places that are never executed
    auto& root = b.subject().root();
    int nl = (int) s.below(5);
    for (int k = 0; k < nl; ++k) {
        control_flow::Assignments as;
        if (s.chance(30)) as.insert({symbolic::symbol("extra_sym"), d.x.expr(3)});
        if (s.flip()) {
            auto& ie = b.add_if_else(root, as, d.debug());
            auto& q = b.add_case(ie, d.x.cond(2), d.debug());
            if (s.flip()) b.add_constant_return(q, d.text(), *d.type(1), {}, d.debug());
        } else
            b.add_map(root, symbolic::symbol("extra_i"), d.x.cond(1), d.x.expr(2), d.x.expr(2), cf::ScheduleType_Sequential::create(), as, d.debug());
    }
    d.walk(root);
    d.annotate(root);
    for (auto& [m, st] : d.schedules) {
        auto& g = m->schedule_type();
        if (g.value() != st.value() || g.category() != st.category() || g.properties() != st.properties())
            c.fail("a map does not have the schedule it was given: value " + g.value() + " category " + std::to_string((int) g.category()) + ", given " + st.value() + " category " + std::to_string((int) st.category()));
    }
    std::string before = fulldump(b.subject());
    c << before << "\n";
    c.nontrivial(before);

    // through text
    serializer::JSONSerializer ser;
    nlohmann::json j = ser.serialize(b.subject());
    if (fulldump(b.subject()) != before) c.fail("serialising changes the program");
    std::string text = j.dump();
    nlohmann::json j2 = nlohmann::json::parse(text);
    serializer::JSONSerializer ser2;
    auto back = ser2.deserialize(j2);
    std::string diff = first_difference(before, fulldump(*back));
    if (!diff.empty()) c.fail("deserialising what was serialised gives a different program\n" + diff);
    // again: what was read back is written the same
    nlohmann::json j3 = ser.serialize(*back);
    auto back2 = ser.deserialize(j3);
    diff = first_difference(before, fulldump(*back2));
    if (!diff.empty()) c.fail("the second round trip differs\n" + diff);

    auto cl = b.subject().clone();
    diff = first_difference(before, fulldump(*cl));
    if (!diff.empty()) c.fail("clone() gives a different program\n" + diff);
    // a fresh element of the clone has an id of its own
    {
        builder::StructuredSDFGBuilder cb(cl);
        auto& blk = cb.add_block(cb.subject().root());
        std::string id = "@" + std::to_string(blk.element_id());
        std::istringstream in(before);
        std::string w;
        while (in >> w)
            if (w == id) c.fail("a block added to a clone has the id of another element: " + id);
    }
    // deep copy of the whole body into a new function
    {
        builder::StructuredSDFGBuilder nb("copy", FunctionType_CPU, b.subject().return_type());
        deepcopy::StructuredSDFGDeepCopy dc(nb, nb.subject().root(), root);
        bool missing = false;
        std::string why;
        for (auto& n : b.subject().structures()) {
            auto& def = b.subject().structure(n);
            auto& nd = nb.add_structure(n, def.is_packed());
            for (size_t k = 0; k < def.num_members(); ++k) nd.add_member(def.member_type(symbolic::integer(k)));
        }
        for (auto& n : b.subject().externals()) nb.add_external(n, b.subject().type(n), b.subject().linkage_type(n));
        for (auto& n : b.subject().arguments()) nb.add_container(n, b.subject().type(n), true);
        for (auto& n : b.subject().containers())
            if (b.subject().is_transient(n)) nb.add_container(n, b.subject().type(n));
        auto map = dc.insert();
        FullDumper x, y;
        x.ids = y.ids = false;
        x.nodebug = y.nodebug = true;
        x.seq(root);
        y.seq(nb.subject().root());
        diff = first_difference(x.o.str(), y.o.str());
        if (!diff.empty()) c.fail("the deep copy differs\n" + diff);
        if (fulldump(b.subject()) != before) c.fail("deep copying changes the source");
        for (auto& [from, to] : map) {
            FullDumper f, t;
            f.ids = t.ids = false;
            f.nodebug = t.nodebug = true;
            f.control(*from);
            t.control(*to);
            if (f.o.str() != t.o.str()) c.fail("the deep copy maps a node to the copy of another one:\n" + f.o.str() + "->\n" + t.o.str());
        }
    }
}

int main(int argc, char** argv) {
    serializer::register_default_serializers();
    pbt::Options o;
    o.id = CHECK_ID;
    o.rule = "every case: a decorated program was serialised, reloaded, cloned and deep-copied";
    o.address_dependent = true;
    o.slow_is_inconclusive = true;
    o.case_timeout_s = 20;
    o.quick = 8000;
    o.thorough = 200000;
    return pbt::Runner(o, prop).main(argc, argv);
}
