// The passes under test, by name.
#pragma once
#include "gen.h"
#include "sdfg/analysis/analysis.h"
#include "sdfg/passes/offloading/code_motion/block_hoisting.h"
#include "sdfg/passes/offloading/code_motion/block_sorting.h"
#include "sdfg/passes/dataflow/memlet_linearization.h"
#include "sdfg/passes/dataflow/tasklet_fusion.h"
#include "sdfg/passes/dataflow/tensor_to_pointer_conversion.h"
#include "sdfg/passes/dataflow/trivial_reference_conversion.h"
#include "sdfg/passes/normalization/normalization.h"
#include "sdfg/passes/normalization/perfect_loop_distribution.h"
#include "sdfg/passes/normalization/stride_minimization.h"
#include "sdfg/passes/pipeline.h"
#include "sdfg/passes/schedules/expansion_pass.h"
#include "sdfg/passes/structured_control_flow/loop_normalization.h"
#include "sdfg/passes/structured_control_flow/pointer_evolution.h"
#include "sdfg/passes/structured_control_flow/while_to_for_conversion.h"
#include "sdfg/passes/symbolic/symbol_promotion.h"
#include "sdfg/passes/symbolic/type_minimization.h"

namespace si {
struct PassEntry {
    std::string name;
    std::function<std::unique_ptr<passes::Pass>()> make;
    int rounds = 40; // a pass must stop reporting changes after this many runs
};
template<class T, class... A>
PassEntry entry(const std::string& n, A... a) {
    return {n, [=] { return std::unique_ptr<passes::Pass>(new T(a...)); }};
}
inline PassEntry one_shot(PassEntry e) {
    e.rounds = 0;
    return e;
}
// a pipeline behind the interface of a single pass
struct PipelinePass : passes::Pass {
    passes::Pipeline p;
    PipelinePass(passes::Pipeline q) : p(std::move(q)) {}
    std::string name() override { return p.name(); }
    bool run_pass(builder::StructuredSDFGBuilder& b, analysis::AnalysisManager& am) override { return p.run(b, am); }
};
inline PassEntry pipe(const std::string& n, passes::Pipeline (*f)()) {
    return {n, [=] { return std::unique_ptr<passes::Pass>(new PipelinePass(f())); }};
}
inline std::vector<PassEntry> dataflow_passes() {
    using namespace passes;
    return {
        entry<ByteReferenceElimination>("ByteReferenceElimination"),
        entry<ConstantPropagation>("ConstantPropagation"),
        entry<DeadDataElimination>("DeadDataElimination"),
        entry<DeadDataElimination>("DeadDataElimination(permissive)", true),
        entry<DeadReferenceElimination>("DeadReferenceElimination"),
        entry<MemletLinearizationPass>("MemletLinearization"),
        entry<ReferencePropagation>("ReferencePropagation"),
        entry<TaskletFusionPass>("TaskletFusion"),
        entry<TensorToPointerConversionPass>("TensorToPointerConversion"),
        entry<TrivialArrayElimination>("TrivialArrayElimination"),
        entry<TrivialReferenceConversionPass>("TrivialReferenceConversion"),
        entry<AllocationManagementPass>("AllocationManagement"),
        pipe("pipeline DataflowSimplification", &Pipeline::dataflow_simplification),
        pipe("pipeline MemletCombine", &Pipeline::memlet_combine),
        pipe("pipeline Memory", &Pipeline::memory),
    };
}
inline std::vector<PassEntry> control_passes() {
    using namespace passes;
    return {
        entry<BlockFusionPass>("BlockFusion"),
        entry<CommonAssignmentElimination>("CommonAssignmentElimination"),
        entry<ConditionEliminationPass>("ConditionElimination"),
        entry<DeadCFGElimination>("DeadCFGElimination"),
        entry<DeadCFGElimination>("DeadCFGElimination(permissive)", true),
        entry<LoopNormalizationPass>("LoopNormalization"),
        entry<PointerEvolution>("PointerEvolution"),
        entry<SequenceFusion>("SequenceFusion"),
        entry<WhileToForConversion>("WhileToForConversion"),
        entry<BlockHoistingPass>("BlockHoisting"),
        entry<BlockSortingPass>("BlockSorting"),
        one_shot(entry<DebugInfoPropagation>("DebugInfoPropagation")),
        pipe("pipeline ControlFlowSimplification", &Pipeline::controlflow_simplification),
        pipe("pipeline DeadCodeElimination", &Pipeline::dead_code_elimination),
    };
}
inline std::vector<PassEntry> symbolic_passes() {
    using namespace passes;
    return {
        entry<SymbolEvolution>("SymbolEvolution"),
        entry<SymbolPromotion>("SymbolPromotion"),
        entry<SymbolPropagation>("SymbolPropagation"),
        entry<TypeMinimizationPass>("TypeMinimization"),
        pipe("pipeline SymbolicSimplification", &Pipeline::symbolic_simplification),
        pipe("pipeline ExpressionCombine", &Pipeline::expression_combine),
    };
}
inline std::vector<PassEntry> loop_passes() {
    using namespace passes;
    return {
        entry<For2MapPass>("For2Map"),
        pipe("pipeline DataParallelism", &Pipeline::data_parallelism),
        entry<normalization::PerfectLoopDistributionPass>("PerfectLoopDistribution"),
        entry<normalization::StrideMinimization>("StrideMinimization"),
        {"pipeline LoopNormalization", [] { return std::unique_ptr<Pass>(new PipelinePass(normalization::loop_normalization())); }},
    };
}
// program shapes a pass looks for
inline std::vector<std::string> motifs_for(const std::string& n) {
    static const std::map<std::string, std::vector<std::string>> m{
        {"SymbolEvolution", {"evolution"}},
        {"pipeline ExpressionCombine", {"evolution", "same definitions"}},
        {"pipeline SymbolicSimplification", {"evolution"}},
        {"SymbolPropagation", {"evolution"}},
        {"WhileToForConversion", {"rotated"}},
        {"PointerEvolution", {"pointer walk"}},
        {"ConditionElimination", {"guarded loop"}},
        {"pipeline ControlFlowSimplification", {"guarded loop"}},
        {"CommonAssignmentElimination", {"common assignment"}},
        {"AllocationManagement", {"allocation"}},
        {"pipeline Memory", {"allocation"}},
        {"ConstantPropagation", {"same definitions"}},
        {"BlockHoisting", {"common blocks"}},
        {"TrivialArrayElimination", {"trivial arrays"}},
        {"TypeMinimization", {"truncation"}},
        {"ByteReferenceElimination", {"byte references"}},
        {"TrivialReferenceConversion", {"byte references"}},
        {"pipeline MemletCombine", {"byte references"}},
        {"ReferencePropagation", {"byte references"}},
        {"TensorToPointerConversion", {"tensors"}},
    };
    auto it = m.find(n);
    return it == m.end() ? std::vector<std::string>{} : it->second;
}
} // namespace si
