// Prelude of the generated programs of C23: functions written against wrenfold's C++ API.
#pragma once
#include <cstdio>
#include <exception>
#include <string>
#include <tuple>
#include <vector>

#include "wf/code_generation/ast_conversion.h"
#include "wf/code_generation/control_flow_graph.h"
#include "wf/code_generation/cpp_code_generator.h"
#include "wf/code_generation/declare_external_function.h"
#include "wf/code_generation/function_evaluator.h"
#include "wf/code_generation/python_code_generator.h"
#include "wf/code_generation/rust_code_generator.h"
#include "wf/constants.h"
#include "wf/expression.h"
#include "wf/functions.h"
#include "wf/matrix_expression.h"
#include "wf/matrix_functions.h"

namespace wfv {
using namespace wf;
namespace ta = wf::type_annotations;

inline void put(const char* tag, const std::string& text) {
  std::printf("@%s %zu\n", tag, text.size());
  std::fwrite(text.data(), 1, text.size(), stdout);
  std::printf("\n");
}

template <typename Func, typename... Args>
void emit(int passes, bool binarize, bool ternaries, const char* name, Func&& func, Args&&... args) {
  const function_description desc = build_function_description(std::forward<Func>(func), name, std::forward<Args>(args)...);
  optimization_params params{};
  params.factorization_passes = passes;
  params.binarize_operations = binarize;
  const control_flow_graph cfg = control_flow_graph{desc, params}.convert_conditionals_to_control_flow(ternaries);
  const ast::function_definition def = ast::create_ast(cfg, desc);
  put("py", python_code_generator{python_generator_target::numpy, python_generator_float_width::float64, 2, false}(def));
  put("cpp", cpp_code_generator{cpp_matrix_type_behavior::eigen}(def));
}

template <typename F>
void guarded(int k, F&& f) {
  std::printf("@case %d\n", k);
  std::fflush(stdout);
  try {
    f();
  } catch (const std::exception& e) {
    put("error", e.what());
  }
  std::printf("@end %d\n", k);
  std::fflush(stdout);
}
}  // namespace wfv
