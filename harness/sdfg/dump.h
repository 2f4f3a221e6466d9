// Readable and order-independent rendering of a structured SDFG.
#pragma once
#include <algorithm>
#include <sstream>
#include "sdfg/structured_sdfg.h"
#include "sdfg/data_flow/library_node.h"

namespace si {
using namespace sdfg;
namespace cf = sdfg::structured_control_flow;

inline const char* code_name(data_flow::TaskletCode c) {
    static const char* n[] = {"assign", "fp_neg", "fp_add", "fp_sub", "fp_mul", "fp_div", "fp_rem", "fp_fma", "fp_oeq",
                              "fp_one", "fp_oge", "fp_ogt", "fp_ole", "fp_olt", "fp_ord", "fp_ueq", "fp_une", "fp_ugt",
                              "fp_uge", "fp_ult", "fp_ule", "fp_uno", "int_add", "int_sub", "int_mul", "int_sdiv", "int_srem",
                              "int_udiv", "int_urem", "int_and", "int_or", "int_xor", "int_shl", "int_ashr", "int_lshr",
                              "int_smin", "int_smax", "int_scmp", "int_umin", "int_umax", "int_ucmp", "int_eq", "int_ne",
                              "int_sge", "int_sgt", "int_sle", "int_slt", "int_uge", "int_ugt", "int_ule", "int_ult", "int_abs"};
    return n[(int) c];
}

struct Dumper {
    std::ostringstream o;
    bool ids = false;

    std::string sub(const data_flow::Subset& s) {
        std::string r;
        for (auto& e : s) r += "[" + e->__str__() + "]";
        return r;
    }
    std::string node(const data_flow::DataFlowNode& n, std::map<const data_flow::DataFlowNode*, int>& num) {
        auto& a = dynamic_cast<const data_flow::AccessNode&>(n);
        std::string r = a.data();
        if (dynamic_cast<const data_flow::ConstantNode*>(&n)) return "#" + r;
        return r + "'" + std::to_string(num[&n]);
    }
    void block(const cf::Block& b, int d) {
        auto& g = b.dataflow();
        std::map<const data_flow::DataFlowNode*, int> num;
        std::list<const data_flow::DataFlowNode*> order;
        try {
            order = g.topological_sort();
        } catch (const std::exception& e) {
            o << pad(d) << "!! " << e.what() << "\n";
            for (auto& n : g.nodes()) order.push_back(&n);
        }
        int k = 0;
        for (auto* n : order) num[n] = k++;
        for (auto* n : order) {
            if (auto t = dynamic_cast<const data_flow::Tasklet*>(n)) {
                o << pad(d);
                for (auto& e : g.out_edges(*t)) o << node(e.dst(), num) << sub(e.subset()) << ":" << e.base_type().print() << " ";
                o << "= " << code_name(t->code()) << "(";
                for (auto& c : t->inputs())
                    for (auto& e : g.in_edges(*t))
                        if (e.dst_conn() == c) o << c << "=" << node(e.src(), num) << sub(e.subset()) << ":" << e.base_type().print() << " ";
                o << ")\n";
            } else if (auto l = dynamic_cast<const data_flow::LibraryNode*>(n)) {
                o << pad(d);
                for (auto& e : g.out_edges(*l)) o << e.src_conn() << "->" << node(e.dst(), num) << sub(e.subset()) << " ";
                o << "= " << l->code().value() << "{" << l->toStr() << "}(";
                for (auto& e : g.in_edges(*l)) o << e.dst_conn() << "=" << node(e.src(), num) << sub(e.subset()) << " ";
                o << ")\n";
            } else {
                for (auto& e : g.out_edges(*n))
                    if (e.type() != data_flow::MemletType::Computational) {
                        const char* kind = e.type() == data_flow::MemletType::Reference ? "ref" : e.type() == data_flow::MemletType::Dereference_Src ? "load" : "store";
                        o << pad(d) << node(e.dst(), num) << " =" << kind << " " << node(e.src(), num) << sub(e.subset()) << ":" << e.base_type().print() << "\n";
                    }
                if (g.in_degree(*n) == 0 && g.out_degree(*n) == 0) o << pad(d) << "isolated " << node(*n, num) << "\n";
            }
        }
    }
    std::string pad(int d) { return std::string(2 * d, ' '); }
    std::string id(const Element& e) { return ids ? "@" + std::to_string(e.element_id()) + " " : ""; }
    void seq(const cf::Sequence& s, int d) {
        for (size_t i = 0; i < s.size(); ++i) {
            auto c = s.at(i);
            control(c.first, d);
            if (!c.second.assignments().empty()) {
                std::vector<std::string> as;
                for (auto& [l, r] : c.second.assignments()) as.push_back(l->get_name() + " := " + r->__str__());
                std::sort(as.begin(), as.end());
                o << pad(d) << "{ ";
                for (auto& a : as) o << a << "; ";
                o << "}\n";
            }
        }
    }
    void control(const cf::ControlFlowNode& n, int d) {
        o << pad(d) << id(n);
        if (auto b = dynamic_cast<const cf::Block*>(&n)) {
            o << "block\n";
            block(*b, d + 1);
        } else if (auto s = dynamic_cast<const cf::Sequence*>(&n)) {
            o << "seq\n";
            seq(*s, d + 1);
        } else if (auto l = dynamic_cast<const cf::StructuredLoop*>(&n)) {
            auto m = dynamic_cast<const cf::Map*>(&n);
            o << (m ? "map" : "for") << " (" << l->indvar()->get_name() << " = " << l->init()->__str__() << "; " << l->condition()->__str__()
              << "; " << l->update()->__str__() << ")";
            if (m) {
                o << " " << m->schedule_type().value();
                std::vector<std::string> ps;
                for (auto& [k, v] : m->schedule_type().properties()) ps.push_back(k + "=" + v);
                std::sort(ps.begin(), ps.end());
                for (auto& p : ps) o << " " << p;
            }
            o << "\n";
            seq(l->root(), d + 1);
        } else if (auto w = dynamic_cast<const cf::While*>(&n)) {
            o << "while\n";
            seq(w->root(), d + 1);
        } else if (auto ie = dynamic_cast<const cf::IfElse*>(&n)) {
            o << "switch\n";
            for (size_t i = 0; i < ie->size(); ++i) {
                auto c = ie->at(i);
                o << pad(d) << " if " << c.second->__str__() << "\n";
                seq(c.first, d + 1);
            }
        } else if (dynamic_cast<const cf::Break*>(&n))
            o << "break\n";
        else if (dynamic_cast<const cf::Continue*>(&n))
            o << "continue\n";
        else if (auto r = dynamic_cast<const cf::Return*>(&n))
            o << "return " << (r->is_constant() ? "#" : "") << r->data() << "\n";
        else
            o << "?\n";
    }
    void function(const StructuredSDFG& f) {
        o << "function " << f.name() << " -> " << f.return_type().print() << "\n";
        for (auto& a : f.arguments()) o << "  arg " << a << ": " << f.type(a).print() << "\n";
        for (auto& a : f.externals()) o << "  extern " << a << ": " << f.type(a).print() << "\n";
        std::vector<std::string> cs;
        for (auto& c : f.containers())
            if (f.is_transient(c)) {
                auto& t = f.type(c);
                std::string l = c + ": " + t.print();
                if (!t.storage_type().allocation_size().is_null())
                    l += " alloc " + t.storage_type().allocation_size()->__str__() + (t.storage_type().allocation() == types::StorageType::Managed ? " managed" : "");
                cs.push_back(l);
            }
        std::sort(cs.begin(), cs.end());
        for (auto& c : cs) o << "  var " << c << "\n";
        seq(f.root(), 1);
    }
};

inline std::string dump(const StructuredSDFG& f, bool ids = false) {
    Dumper d;
    d.ids = ids;
    d.function(f);
    return d.o.str();
}

} // namespace si
