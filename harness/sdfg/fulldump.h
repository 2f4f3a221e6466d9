// Complete structural rendering of a structured SDFG: everything the serialised form is meant to carry.
// Expressions are rendered by an own printer (structure, not docc's text).
#pragma once
#include <algorithm>
#include <sstream>
#include "dump.h"
#include "sdfg/codegen/language_extensions/cpp_language_extension.h"
#include "sdfg/data_flow/library_nodes/barrier_local_node.h"
#include "sdfg/data_flow/library_nodes/call_node.h"
#include "sdfg/data_flow/library_nodes/invoke_node.h"
#include "sdfg/data_flow/library_nodes/load_const_node.h"
#include "sdfg/data_flow/library_nodes/math/math.h"
#include "sdfg/data_flow/library_nodes/math/tensor/elementwise_ops/cmath_node.h"
#include "sdfg/data_flow/library_nodes/math/tensor/elementwise_ops/tasklet_node.h"
#include "sdfg/data_flow/library_nodes/metadata_node.h"
#include "sdfg/data_flow/library_nodes/stdlib/stdlib.h"

namespace si {

inline std::string xs(const symbolic::Expression& e) {
    using namespace SymEngine;
    if (e.is_null()) return "null";
    const Basic& b = *e;
    if (is_a<Integer>(b) || is_a<Rational>(b)) return b.__str__();
    if (is_a<Symbol>(b)) return "'" + static_cast<const Symbol&>(b).get_name();
    if (is_a<BooleanAtom>(b)) return static_cast<const BooleanAtom&>(b).get_val() ? "#true" : "#false";
    std::string head;
    bool commutative = true;
    if (is_a<Add>(b)) head = "+";
    else if (is_a<Mul>(b)) head = "*";
    else if (is_a<And>(b)) head = "and";
    else if (is_a<Or>(b)) head = "or";
    else if (is_a<Min>(b)) head = "min";
    else if (is_a<Max>(b)) head = "max";
    else if (is_a<Equality>(b)) head = "==";
    else if (is_a<Unequality>(b)) head = "!=";
    else {
        commutative = false;
        if (is_a<Pow>(b)) head = "pow";
        else if (is_a<Not>(b)) head = "not";
        else if (is_a<LessThan>(b)) head = "<=";
        else if (is_a<StrictLessThan>(b)) head = "<";
        else if (auto f = dynamic_cast<const FunctionSymbol*>(&b)) {
            head = f->get_name();
            if (auto so = dynamic_cast<const symbolic::SizeOfTypeFunction*>(f)) head += "<" + so->get_type().print() + ">";
        } else
            head = "?" + b.__str__();
    }
    std::vector<std::string> as;
    for (auto& a : b.get_args()) as.push_back(xs(a));
    if (commutative) std::sort(as.begin(), as.end());
    std::string r = "(" + head;
    for (auto& a : as) r += " " + a;
    return r + ")";
}
template<class V>
std::string xsv(const V& v) {
    std::string r = "[";
    for (auto& e : v) r += xs(e) + ",";
    return r + "]";
}
inline std::string q(const std::string& s) { return "\"" + s + "\""; }

inline std::string storage(const types::StorageType& s) {
    return "{" + s.value() + " size=" + xs(s.allocation_size()) + " a" + std::to_string((int) s.allocation()) + " d" + std::to_string((int) s.deallocation()) +
           " arg=" + xs(s.arg1()) + "}";
}
inline std::string full(const types::IType& t) {
    std::string tail = " " + storage(t.storage_type()) + " align " + std::to_string(t.alignment()) + " init " + q(t.initializer());
    if (auto x = dynamic_cast<const types::Scalar*>(&t)) return "scalar " + std::to_string((int) x->primitive_type()) + tail;
    if (auto x = dynamic_cast<const types::Array*>(&t)) return "array " + xs(x->num_elements()) + " of (" + full(x->element_type()) + ")" + tail;
    if (auto x = dynamic_cast<const types::Pointer*>(&t)) return "pointer (" + (x->has_pointee_type() ? full(x->pointee_type()) : "opaque") + ")" + tail;
    if (auto x = dynamic_cast<const types::Structure*>(&t)) return "structure " + x->name() + tail;
    if (auto x = dynamic_cast<const types::Function*>(&t)) {
        std::string r = "function (" + full(x->return_type()) + ")(";
        for (size_t i = 0; i < x->num_params(); ++i) r += full(x->param_type(symbolic::integer(i))) + "; ";
        return r + (x->is_var_arg() ? "..." : "") + ")" + tail;
    }
    if (auto x = dynamic_cast<const types::Tensor*>(&t))
        return "tensor " + xsv(x->shape()) + " strides " + xsv(x->strides()) + " offset " + xs(x->offset()) + " of (" + full(x->element_type()) + ")" + tail;
    if (auto x = dynamic_cast<const codegen::Reference*>(&t)) return "reference (" + full(x->reference_type()) + ")";
    return "?";
}
inline std::string full(const DebugInfo& d) {
    if (!d.has()) return "";
    return " <" + q(d.filename()) + " " + q(d.function()) + " " + std::to_string(d.start_line()) + ":" + std::to_string(d.start_column()) + "-" + std::to_string(d.end_line()) + ":" +
           std::to_string(d.end_column()) + ">";
}
template<class M>
std::string kv(const M& m) {
    std::vector<std::string> v;
    for (auto& [k, x] : m) v.push_back(q(k) + "=" + q(x));
    std::sort(v.begin(), v.end());
    std::string r;
    for (auto& x : v) r += x + ",";
    return r;
}
inline std::string full(const data_flow::LibraryNode& n) {
    using namespace math;
    std::string r = "library " + n.code().value() + " impl=" + n.implementation_type().value() + " side=" + std::to_string(n.side_effect()) + " in(";
    for (auto& i : n.inputs()) r += i + ",";
    r += ") out(";
    for (auto& o : n.outputs()) r += o + ",";
    r += ") ";
    auto* p = &n;
    auto axes = [](const std::vector<int64_t>& v) {
        std::string s = "[";
        for (auto a : v) s += std::to_string(a) + ",";
        return s + "]";
    };
    if (auto x = dynamic_cast<const data_flow::CallNode*>(p)) r += "callee " + x->callee_name();
    if (auto x = dynamic_cast<const data_flow::InvokeNode*>(p)) r += "callee " + x->callee_name();
    if (auto x = dynamic_cast<const data_flow::MetadataNode*>(p)) r += kv(x->metadata());
    if (auto x = dynamic_cast<const data_flow::LoadConstNode*>(p)) {
        r += full(x->type()) + " ";
        auto& d = x->data_source();
        if (d.in_external_file()) r += "file " + d.filename().string() + " " + std::to_string(d.num_bytes());
        else
            for (auto it = d.inline_begin(); it != d.inline_end(); ++it) r += std::to_string((int) *it) + " ";
    }
    if (auto x = dynamic_cast<const stdlib::MallocNode*>(p)) r += xs(x->size());
    if (auto x = dynamic_cast<const stdlib::AllocaNode*>(p)) r += xs(x->size());
    if (auto x = dynamic_cast<const stdlib::CallocNode*>(p)) r += xs(x->num()) + " " + xs(x->size());
    if (auto x = dynamic_cast<const stdlib::MemcpyNode*>(p)) r += xs(x->count());
    if (auto x = dynamic_cast<const stdlib::MemmoveNode*>(p)) r += xs(x->count());
    if (auto x = dynamic_cast<const stdlib::MemsetNode*>(p)) r += xs(x->value()) + " " + xs(x->num());
    if (auto x = dynamic_cast<const blas::DotNode*>(p)) r += std::string(1, (char) x->precision()) + xs(x->n()) + " " + xs(x->incx()) + " " + xs(x->incy());
    if (auto x = dynamic_cast<const blas::GEMMNode*>(p))
        r += std::string(1, (char) x->precision()) + std::to_string((int) x->layout()) + " " + std::to_string((int) x->trans_a()) + " " + std::to_string((int) x->trans_b()) + " " +
             xs(x->m()) + " " + xs(x->n()) + " " + xs(x->k()) + " " + xs(x->lda()) + " " + xs(x->ldb()) + " " + xs(x->ldc());
    if (auto x = dynamic_cast<const cmath::CMathNode*>(p)) r += std::to_string((int) x->function()) + " " + std::to_string((int) x->primitive_type()) + " " + x->name();
    if (auto x = dynamic_cast<const tensor::BroadcastNode*>(p)) r += xsv(x->input_shape()) + xsv(x->output_shape());
    if (auto x = dynamic_cast<const tensor::ConvNode*>(p))
        r += xsv(x->shape()) + xsv(x->kernel_shape()) + xsv(x->strides()) + xsv(x->pads()) + xsv(x->dilations()) + xs(x->output_channels()) + " " + xs(x->group());
    if (auto x = dynamic_cast<const tensor::MatMulNode*>(p))
        r += xsv(x->shape_a()) + xsv(x->shape_b()) + xsv(x->strides_a()) + xsv(x->strides_b()) + xs(x->offset_a()) + " " + xs(x->offset_b());
    if (auto x = dynamic_cast<const tensor::TransposeNode*>(p)) r += xsv(x->shape()) + axes(x->perm());
    if (auto x = dynamic_cast<const tensor::ElementWiseUnaryNode*>(p)) r += xsv(x->shape());
    if (auto x = dynamic_cast<const tensor::ElementWiseBinaryNode*>(p)) r += xsv(x->shape());
    if (auto x = dynamic_cast<const tensor::CastNode*>(p)) r += " to " + std::to_string((int) x->target_type());
    if (auto x = dynamic_cast<const tensor::ReduceNode*>(p)) r += xsv(x->shape()) + axes(x->axes()) + std::to_string(x->keepdims());
    if (auto x = dynamic_cast<const tensor::TaskletTensorNode*>(p)) r += std::to_string((int) x->tasklet_code()) + xsv(x->shape());
    if (auto x = dynamic_cast<const tensor::CMathTensorNode*>(p)) r += std::to_string((int) x->cmath_function()) + xsv(x->shape());
    return r;
}

struct FullDumper {
    std::ostringstream o;
    bool ids = true, nodebug = false;
    std::string id(const Element& e) { return (ids ? "@" + std::to_string(e.element_id()) : std::string("@")) + (nodebug ? "" : full(e.debug_info())); }
    std::string node(const data_flow::DataFlowNode& n) {
        if (auto t = dynamic_cast<const data_flow::Tasklet*>(&n)) {
            std::string r = "tasklet " + std::to_string((int) t->code()) + " " + t->output() + "(";
            for (auto& i : t->inputs()) r += i + ",";
            return r + ")";
        }
        if (auto l = dynamic_cast<const data_flow::LibraryNode*>(&n)) return full(*l);
        if (auto c = dynamic_cast<const data_flow::ConstantNode*>(&n)) return "constant " + q(c->data()) + " " + full(c->type());
        return "access " + dynamic_cast<const data_flow::AccessNode&>(n).data();
    }
    // nodes and edges as sorted lists; without ids, edges name their ends by content (enough to tell rewired graphs apart in practice)
    void block(const cf::Block& b) {
        auto& g = b.dataflow();
        std::vector<std::string> v;
        auto end = [&](const data_flow::DataFlowNode& n) { return ids ? "@" + std::to_string(n.element_id()) : "{" + node(n) + " " + std::to_string(g.in_degree(n)) + "/" + std::to_string(g.out_degree(n)) + "}"; };
        for (auto& n : g.nodes()) v.push_back("  node " + id(n) + " " + node(n));
        for (auto& e : g.edges())
            v.push_back("  edge " + id(e) + " " + end(e.src()) + "." + e.src_conn() + " -> " + end(e.dst()) + "." + e.dst_conn() + " " + xsv(e.subset()) + " : " + full(e.base_type()) +
                        " type " + std::to_string((int) e.type()));
        std::sort(v.begin(), v.end());
        for (auto& x : v) o << x << "\n";
    }
    void seq(const cf::Sequence& s) {
        o << "seq " << id(s) << " {\n";
        for (size_t i = 0; i < s.size(); ++i) {
            auto c = s.at(i);
            control(c.first);
            std::vector<std::string> as;
            for (auto& [l, r] : c.second.assignments()) as.push_back(l->get_name() + ":=" + xs(r));
            std::sort(as.begin(), as.end());
            o << "transition " << id(c.second);
            for (auto& a : as) o << " " << a << ";";
            o << "\n";
        }
        o << "}\n";
    }
    void control(const cf::ControlFlowNode& n) {
        if (auto b = dynamic_cast<const cf::Block*>(&n)) {
            o << "block " << id(n) << "\n";
            block(*b);
        } else if (auto s = dynamic_cast<const cf::Sequence*>(&n))
            seq(*s);
        else if (auto l = dynamic_cast<const cf::StructuredLoop*>(&n)) {
            auto m = dynamic_cast<const cf::Map*>(&n);
            o << (m ? "map " : "for ") << id(n) << " " << l->indvar()->get_name() << "=" << xs(l->init()) << "; " << xs(l->condition()) << "; " << xs(l->update());
            if (m) o << " schedule " << m->schedule_type().value() << " category " << (int) m->schedule_type().category() << " {" << kv(m->schedule_type().properties()) << "}";
            o << "\n";
            seq(l->root());
        } else if (auto w = dynamic_cast<const cf::While*>(&n)) {
            o << "while " << id(n) << "\n";
            seq(w->root());
        } else if (auto ie = dynamic_cast<const cf::IfElse*>(&n)) {
            o << "switch " << id(n) << "\n";
            for (size_t i = 0; i < ie->size(); ++i) {
                o << "case " << xs(ie->at(i).second) << "\n";
                seq(ie->at(i).first);
            }
        } else if (auto r = dynamic_cast<const cf::Return*>(&n)) {
            o << "return " << id(n) << " " << q(r->data());
            if (r->is_constant()) o << " constant " << full(r->type());
            o << "\n";
        } else if (dynamic_cast<const cf::Break*>(&n))
            o << "break " << id(n) << "\n";
        else if (dynamic_cast<const cf::Continue*>(&n))
            o << "continue " << id(n) << "\n";
        else
            o << "?\n";
    }
    void function(const StructuredSDFG& f) {
        o << "function " << f.name() << " type " << f.type().value() << " counter " << (ids ? f.element_counter() : 0) << " returns " << full(f.return_type()) << "\n";
        std::vector<std::string> v;
        for (auto& s : f.structures()) {
            auto& d = f.structure(s);
            std::string l = "struct " + d.name() + (d.is_packed() ? " packed" : "");
            for (size_t i = 0; i < d.num_members(); ++i) l += " {" + full(d.member_type(symbolic::integer(i))) + "}";
            v.push_back(l);
        }
        for (auto& c : f.containers())
            v.push_back("container " + c + ": " + full(f.type(c)) + (f.is_argument(c) ? " argument" : "") + (f.is_external(c) ? " external" : "") + (f.is_transient(c) ? " transient" : ""));
        for (auto& e : f.externals()) v.push_back("external " + e + " linkage " + std::to_string((int) f.linkage_type(e)));
        std::sort(v.begin(), v.end());
        for (auto& x : v) o << x << "\n";
        o << "arguments";
        for (auto& a : f.arguments()) o << " " << a;
        o << "\nmetadata " << kv(f.metadata()) << "\n";
        seq(f.root());
    }
};
inline std::string fulldump(const StructuredSDFG& f, bool ids = true) {
    FullDumper d;
    d.ids = ids;
    d.function(f);
    return d.o.str();
}
inline std::string first_difference(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b);
    std::string p, r;
    for (;;) {
        bool m = (bool) std::getline(x, p), n = (bool) std::getline(y, r);
        if (!m && !n) return "";
        if (!m) p = "<end>";
        if (!n) r = "<end>";
        if (p != r) return "expected: " + p + "\n     got: " + r;
    }
}
} // namespace si
