// Stand-in for external/symdiff (an empty submodule in this checkout).
#ifndef STANDIN_ENGINEAPI_HH
#define STANDIN_ENGINEAPI_HH
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace Eqo {
class EquationObject;
typedef std::shared_ptr<EquationObject> EqObjPtr;
}
namespace EngineAPI {
enum EqObjType {
  MODEL_OBJ, CONST_OBJ, VARIABLE_OBJ, PRODUCT_OBJ, ADD_OBJ, IF_OBJ, IFELSE_OBJ,
  USERFUNC_OBJ, EXPONENT_OBJ, POW_OBJ, LOG_OBJ, ULOGICAL_OBJ, BLOGICAL_OBJ
};
const std::string &getStringValue(Eqo::EqObjPtr);
const std::string &getName(Eqo::EqObjPtr);
double getDoubleValue(Eqo::EqObjPtr);
std::vector<Eqo::EqObjPtr> getArgs(Eqo::EqObjPtr);
EqObjType getEnumeratedType(Eqo::EqObjPtr);
std::set<std::string> getReferencedType(Eqo::EqObjPtr, EqObjType);
Eqo::EqObjPtr con(double);
Eqo::EqObjPtr mod(const std::string &);
typedef bool (*ModelListCallBack)(const std::string &);
typedef Eqo::EqObjPtr (*DerivativeRule)(Eqo::EqObjPtr, Eqo::EqObjPtr);
void SetModelListCallBack(ModelListCallBack);
void SetDerivativeRule(DerivativeRule);
void ResetAllData();
}
#endif
