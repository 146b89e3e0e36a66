// Stand-in for external/symdiff (an empty submodule in this checkout).
#ifndef STANDIN_PARSEEXPR_HH
#define STANDIN_PARSEEXPR_HH
#include "EngineAPI.hh"
#include <string>
#include <list>
namespace EvalExpr {
typedef std::list<std::string> error_t;
Eqo::EqObjPtr evaluateExpression(const std::string &, error_t &);
}
#endif
