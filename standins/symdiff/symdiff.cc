// A small symbolic engine that stands in for external/symdiff, which is an
// empty submodule in this checkout.  It implements the interface that
// src/AutoEquation uses, deterministically: no containers ordered by address,
// no global state other than the table of declared functions.
#include "EngineAPI.hh"
#include "parseexpr.hh"
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <map>
#include <stdexcept>

namespace Eqo {
class EquationObject {
 public:
  EngineAPI::EqObjType type;
  std::string name;     // identifier or function name
  double value = 0.0;   // constants
  std::vector<EqObjPtr> args;
  std::string text;     // rendered
};
}

using Eqo::EqObjPtr;
using Eqo::EquationObject;
using namespace EngineAPI;

namespace {

struct FuncDef {
  std::vector<std::string> formals;
  std::vector<EqObjPtr> derivs;   // empty when only declared
};

typedef std::map<std::string, FuncDef> functable_t;
functable_t *functable = nullptr;
ModelListCallBack modelcb = nullptr;
DerivativeRule derivrule = nullptr;

functable_t &functions();

std::string fmt(double v)
{
  char b[64];
  for (int p = 6; p <= 17; ++p)
  {
    snprintf(b, sizeof(b), "%.*g", p, v);
    if (strtod(b, nullptr) == v)
    {
      break;
    }
  }
  return b;
}

bool isconst(const EqObjPtr &p) { return p->type == CONST_OBJ; }
bool isval(const EqObjPtr &p, double v) { return isconst(p) && (p->value == v); }

std::string paren(const EqObjPtr &p)
{
  switch (p->type)
  {
    case CONST_OBJ:
      return (p->value < 0.0) ? ("(" + p->text + ")") : p->text;
    case MODEL_OBJ:
    case VARIABLE_OBJ:
    case USERFUNC_OBJ:
    case EXPONENT_OBJ:
    case LOG_OBJ:
    case IF_OBJ:
    case IFELSE_OBJ:
      return p->text;
    case POW_OBJ:
      return p->text;
    default:
      return (p->text[0] == '(') ? p->text : ("(" + p->text + ")");
  }
}

std::string call(const std::string &n, const std::vector<EqObjPtr> &a)
{
  std::string s = n + "(";
  for (size_t i = 0; i < a.size(); ++i)
  {
    if (i) s += ",";
    s += a[i]->text;
  }
  return s + ")";
}

EqObjPtr mk(EqObjType t, const std::string &n, const std::vector<EqObjPtr> &a)
{
  auto p = std::make_shared<EquationObject>();
  p->type = t;
  p->name = n;
  p->args = a;
  switch (t)
  {
    case ADD_OBJ:
    case PRODUCT_OBJ:
    {
      std::string s = "(";
      for (size_t i = 0; i < a.size(); ++i)
      {
        if (i) s += (t == ADD_OBJ) ? " + " : " * ";
        s += paren(a[i]);
      }
      p->text = s + ")";
      break;
    }
    case BLOGICAL_OBJ:
      p->text = "(" + paren(a[0]) + " " + n + " " + paren(a[1]) + ")";
      break;
    case ULOGICAL_OBJ:
      p->text = "(!" + paren(a[0]) + ")";
      break;
    case POW_OBJ:
      if (isconst(a[1]))
      {
        p->text = "(" + paren(a[0]) + "^" + paren(a[1]) + ")";
      }
      else
      {
        p->text = call("pow", a);
      }
      break;
    default:
      p->text = call(n, a);
      break;
  }
  return p;
}

EqObjPtr mkcon(double v)
{
  auto p = std::make_shared<EquationObject>();
  p->type = CONST_OBJ;
  p->value = v;
  p->text = fmt(v);
  return p;
}

EqObjPtr mkid(const std::string &n, bool model)
{
  auto p = std::make_shared<EquationObject>();
  p->type = model ? MODEL_OBJ : VARIABLE_OBJ;
  p->name = n;
  p->text = n;
  return p;
}

EqObjPtr add(const std::vector<EqObjPtr> &in)
{
  std::vector<EqObjPtr> o;
  double c = 0.0;
  for (auto &x : in)
  {
    if (isconst(x))
    {
      c += x->value;
    }
    else if (x->type == ADD_OBJ)
    {
      for (auto &y : x->args)
      {
        if (isconst(y)) c += y->value; else o.push_back(y);
      }
    }
    else
    {
      o.push_back(x);
    }
  }
  if ((c != 0.0) || o.empty())
  {
    o.insert(o.begin(), mkcon(c));
  }
  return (o.size() == 1) ? o[0] : mk(ADD_OBJ, "+", o);
}

EqObjPtr mul(const std::vector<EqObjPtr> &in)
{
  std::vector<EqObjPtr> o;
  double c = 1.0;
  for (auto &x : in)
  {
    if (isconst(x))
    {
      c *= x->value;
    }
    else if (x->type == PRODUCT_OBJ)
    {
      for (auto &y : x->args)
      {
        if (isconst(y)) c *= y->value; else o.push_back(y);
      }
    }
    else
    {
      o.push_back(x);
    }
  }
  if (c == 0.0)
  {
    return mkcon(0.0);
  }
  if ((c != 1.0) || o.empty())
  {
    o.insert(o.begin(), mkcon(c));
  }
  return (o.size() == 1) ? o[0] : mk(PRODUCT_OBJ, "*", o);
}

EqObjPtr neg(const EqObjPtr &x) { return mul({mkcon(-1.0), x}); }

EqObjPtr power(const EqObjPtr &b, const EqObjPtr &e)
{
  if (isconst(b) && isconst(e) && !((b->value == 0.0) && (e->value < 0.0)))
  {
    double v = std::pow(b->value, e->value);
    if (std::isfinite(v)) return mkcon(v);
  }
  if (isval(e, 0.0)) return mkcon(1.0);
  if (isval(e, 1.0)) return b;
  return mk(POW_OBJ, "pow", {b, e});
}

EqObjPtr func(const std::string &n, const std::vector<EqObjPtr> &a)
{
  auto want = [&](size_t k) {
    if (a.size() != k)
      throw std::runtime_error("wrong number of arguments for function " + n);
  };
  if (n == "exp")
  {
    want(1);
    if (isval(a[0], 0.0)) return mkcon(1.0);
    return mk(EXPONENT_OBJ, "exp", a);
  }
  if (n == "log")
  {
    want(1);
    if (isval(a[0], 1.0)) return mkcon(0.0);
    return mk(LOG_OBJ, "log", a);
  }
  if (n == "pow")
  {
    want(2);
    return power(a[0], a[1]);
  }
  if (n == "if")
  {
    want(2);
    return mk(IF_OBJ, "if", a);
  }
  if (n == "ifelse")
  {
    want(3);
    return mk(IFELSE_OBJ, "ifelse", a);
  }
  auto it = functions().find(n);
  if (it == functions().end())
  {
    throw std::runtime_error("Function \"" + n + "\" not defined");
  }
  want(it->second.formals.size());
  return mk(USERFUNC_OBJ, n, a);
}

EqObjPtr rebuild(const EqObjPtr &p, const std::vector<EqObjPtr> &a)
{
  switch (p->type)
  {
    case ADD_OBJ: return add(a);
    case PRODUCT_OBJ: return mul(a);
    case POW_OBJ: return power(a[0], a[1]);
    case ULOGICAL_OBJ:
    case BLOGICAL_OBJ: return mk(p->type, p->name, a);
    default: return func(p->name, a);
  }
}

EqObjPtr subst(const EqObjPtr &p, const std::map<std::string, EqObjPtr> &m)
{
  if ((p->type == MODEL_OBJ) || (p->type == VARIABLE_OBJ))
  {
    auto it = m.find(p->name);
    return (it == m.end()) ? p : it->second;
  }
  if (p->type == CONST_OBJ)
  {
    return p;
  }
  std::vector<EqObjPtr> a;
  for (auto &x : p->args) a.push_back(subst(x, m));
  return rebuild(p, a);
}

EqObjPtr diff(const EqObjPtr &p, const EqObjPtr &v)
{
  switch (p->type)
  {
    case CONST_OBJ:
      return mkcon(0.0);
    case VARIABLE_OBJ:
      return mkcon((p->name == v->name) ? 1.0 : 0.0);
    case MODEL_OBJ:
      if (p->name == v->name) return mkcon(1.0);
      if (derivrule) return derivrule(p, v);
      return mkcon(0.0);
    case ADD_OBJ:
    {
      std::vector<EqObjPtr> o;
      for (auto &x : p->args) o.push_back(diff(x, v));
      return add(o);
    }
    case PRODUCT_OBJ:
    {
      std::vector<EqObjPtr> o;
      for (size_t i = 0; i < p->args.size(); ++i)
      {
        EqObjPtr d = diff(p->args[i], v);
        if (isval(d, 0.0)) continue;
        std::vector<EqObjPtr> f(p->args);
        f[i] = d;
        o.push_back(mul(f));
      }
      return add(o);
    }
    case EXPONENT_OBJ:
    {
      EqObjPtr d = diff(p->args[0], v);
      return isval(d, 0.0) ? d : mul({d, p});
    }
    case LOG_OBJ:
    {
      EqObjPtr d = diff(p->args[0], v);
      return isval(d, 0.0) ? d : mul({d, power(p->args[0], mkcon(-1.0))});
    }
    case POW_OBJ:
    {
      const EqObjPtr &b = p->args[0];
      const EqObjPtr &e = p->args[1];
      EqObjPtr db = diff(b, v);
      EqObjPtr de = diff(e, v);
      EqObjPtr r = mkcon(0.0);
      if (!isval(db, 0.0))
      {
        r = mul({e, power(b, add({e, mkcon(-1.0)})), db});
      }
      if (!isval(de, 0.0))
      {
        r = add({r, mul({de, mk(LOG_OBJ, "log", {b}), p})});
      }
      return r;
    }
    case ULOGICAL_OBJ:
    case BLOGICAL_OBJ:
      return mkcon(0.0);
    case IF_OBJ:
    {
      EqObjPtr d = diff(p->args[1], v);
      return isval(d, 0.0) ? d : mk(IF_OBJ, "if", {p->args[0], d});
    }
    case IFELSE_OBJ:
    {
      EqObjPtr d0 = diff(p->args[1], v);
      EqObjPtr d1 = diff(p->args[2], v);
      if (isconst(d0) && isconst(d1) && (d0->value == d1->value)) return d0;
      return mk(IFELSE_OBJ, "ifelse", {p->args[0], d0, d1});
    }
    case USERFUNC_OBJ:
    {
      std::vector<EqObjPtr> o;
      for (size_t i = 0; i < p->args.size(); ++i)
      {
        EqObjPtr d = diff(p->args[i], v);
        if (isval(d, 0.0)) continue;
        const FuncDef &fd = functions()[p->name];
        if (fd.derivs.empty())
        {
          throw std::runtime_error("Derivative of function \"" + p->name + "\" with respect to argument is not defined");
        }
        std::map<std::string, EqObjPtr> m;
        for (size_t j = 0; j < fd.formals.size(); ++j)
        {
          m[fd.formals[j]] = p->args[j];
        }
        o.push_back(mul({d, subst(fd.derivs[i], m)}));
      }
      return add(o);
    }
  }
  return mkcon(0.0);
}

struct Parser {
  const std::string &s;
  size_t i = 0;
  bool plain = false;  // inside declare/define: names are plain variables

  explicit Parser(const std::string &x) : s(x) {}

  void ws() { while ((i < s.size()) && isspace((unsigned char)s[i])) ++i; }
  bool peek(const char *t)
  {
    ws();
    return s.compare(i, std::string(t).size(), t) == 0;
  }
  bool eat(const char *t)
  {
    if (peek(t)) { i += std::string(t).size(); return true; }
    return false;
  }
  [[noreturn]] void fail()
  {
    ws();
    throw std::runtime_error("Syntax Error near: \"" + s.substr(i, 20) + "\" in \"" + s + "\"");
  }
  void need(const char *t) { if (!eat(t)) fail(); }

  std::string ident()
  {
    ws();
    size_t b = i;
    auto other = [&](size_t k) { return ((unsigned char)s[k] >= 0x80); }; // UTF-8
    if ((i < s.size()) && (isalpha((unsigned char)s[i]) || s[i] == '_' || other(i)))
    {
      ++i;
      while ((i < s.size()) && (isalnum((unsigned char)s[i]) || (s[i] == '_') || (s[i] == '@') || (s[i] == '.') || other(i) ||
             ((s[i] == ':') && (i + 1 < s.size()) && (isalpha((unsigned char)s[i + 1]) || s[i + 1] == '_'))))
      {
        ++i;
      }
    }
    return s.substr(b, i - b);
  }

  EqObjPtr orx()
  {
    EqObjPtr l = andx();
    while (eat("||")) l = mk(BLOGICAL_OBJ, "||", {l, andx()});
    return l;
  }
  EqObjPtr andx()
  {
    EqObjPtr l = eqx();
    while (eat("&&")) l = mk(BLOGICAL_OBJ, "&&", {l, eqx()});
    return l;
  }
  EqObjPtr eqx()
  {
    EqObjPtr l = rel();
    for (;;)
    {
      if (eat("==")) l = mk(BLOGICAL_OBJ, "==", {l, rel()});
      else if (eat("!=")) l = mk(BLOGICAL_OBJ, "!=", {l, rel()});
      else return l;
    }
  }
  EqObjPtr rel()
  {
    EqObjPtr l = sum();
    for (;;)
    {
      if (eat("<=")) l = mk(BLOGICAL_OBJ, "<=", {l, sum()});
      else if (eat(">=")) l = mk(BLOGICAL_OBJ, ">=", {l, sum()});
      else if (eat("<")) l = mk(BLOGICAL_OBJ, "<", {l, sum()});
      else if (eat(">")) l = mk(BLOGICAL_OBJ, ">", {l, sum()});
      else return l;
    }
  }
  EqObjPtr sum()
  {
    EqObjPtr l = term();
    for (;;)
    {
      if (eat("+")) l = add({l, term()});
      else if (eat("-")) l = add({l, neg(term())});
      else return l;
    }
  }
  EqObjPtr term()
  {
    EqObjPtr l = unary();
    for (;;)
    {
      if (eat("*")) l = mul({l, unary()});
      else if (eat("/")) l = mul({l, power(unary(), mkcon(-1.0))});
      else return l;
    }
  }
  EqObjPtr unary()
  {
    if (eat("-")) return neg(unary());
    if (eat("+")) return unary();
    ws();
    if (peek("!") && !peek("!=")) { eat("!"); return mk(ULOGICAL_OBJ, "!", {unary()}); }
    return pw();
  }
  EqObjPtr pw()
  {
    EqObjPtr b = primary();
    if (eat("^")) return power(b, unary());
    return b;
  }
  std::vector<EqObjPtr> arglist()
  {
    std::vector<EqObjPtr> a;
    need("(");
    if (eat(")")) return a;
    do { a.push_back(orx()); } while (eat(","));
    need(")");
    return a;
  }
  EqObjPtr primary()
  {
    ws();
    if (i >= s.size()) fail();
    if (eat("("))
    {
      EqObjPtr e = orx();
      need(")");
      return e;
    }
    if (isdigit((unsigned char)s[i]) || (s[i] == '.'))
    {
      // strtod also takes hexadecimal, inf and nan: a digit or point comes first here
      size_t j = i;
      while ((j < s.size()) && (isdigit((unsigned char)s[j]) || s[j] == '.')) ++j;
      if ((j < s.size()) && (s[j] == 'e' || s[j] == 'E'))
      {
        size_t k = j + 1;
        if ((k < s.size()) && (s[k] == '+' || s[k] == '-')) ++k;
        if ((k < s.size()) && isdigit((unsigned char)s[k]))
        {
          while ((k < s.size()) && isdigit((unsigned char)s[k])) ++k;
          j = k;
        }
      }
      std::string t = s.substr(i, j - i);
      char *end = nullptr;
      double v = strtod(t.c_str(), &end);
      if (*end != '\0') fail();
      i = j;
      return mkcon(v);
    }
    std::string n = ident();
    if (n.empty()) fail();
    if (peek("("))
    {
      if (n == "diff")
      {
        std::vector<EqObjPtr> a = arglist();
        if ((a.size() != 2) || !((a[1]->type == MODEL_OBJ) || (a[1]->type == VARIABLE_OBJ)))
        {
          throw std::runtime_error("diff expects an expression and a variable");
        }
        return diff(a[0], a[1]);
      }
      if (n == "simplify")
      {
        std::vector<EqObjPtr> a = arglist();
        if (a.size() != 1) throw std::runtime_error("simplify expects an expression");
        return a[0];
      }
      if ((n == "declare") || (n == "define"))
      {
        return declaration(n == "define");
      }
      return func(n, arglist());
    }
    return mkid(n, (!plain) && modelcb && modelcb(n));
  }
  EqObjPtr declaration(bool define)
  {
    need("(");
    std::string n = ident();
    if (n.empty()) fail();
    FuncDef fd;
    need("(");
    do
    {
      std::string f = ident();
      if (f.empty()) fail();
      fd.formals.push_back(f);
    } while (eat(","));
    need(")");
    bool old = plain;
    plain = true;
    // the function may be named in its own derivatives
    bool fresh = !functions().count(n);
    FuncDef prev = functions()[n];
    functions()[n].formals = fd.formals;
    try
    {
      if (define)
      {
        while (eat(",")) fd.derivs.push_back(orx());
        if (fd.derivs.size() != fd.formals.size())
        {
          throw std::runtime_error("wrong number of derivatives defined for function " + n);
        }
      }
      need(")");
    }
    catch (...)
    {
      plain = old;
      if (fresh) functions().erase(n); else functions()[n] = prev;
      throw;
    }
    plain = old;
    functions()[n] = fd;
    std::vector<EqObjPtr> a;
    for (auto &f : fd.formals) a.push_back(mkid(f, false));
    return mk(USERFUNC_OBJ, n, a);
  }
  EqObjPtr statements()
  {
    EqObjPtr r;
    for (;;)
    {
      while (eat(";")) {}
      ws();
      if (i >= s.size()) break;
      r = orx();
      ws();
      if (i >= s.size()) break;
      need(";");
    }
    if (!r) throw std::runtime_error("empty expression");
    return r;
  }
};

functable_t &functions()
{
  if (!functable)
  {
    functable = new functable_t;
  }
  return *functable;
}

void collect(const EqObjPtr &p, EqObjType t, std::set<std::string> &o)
{
  if (p->type == t) o.insert(p->name);
  for (auto &x : p->args) collect(x, t, o);
}
}

namespace EngineAPI {
const std::string &getStringValue(EqObjPtr p) { return p->text; }
const std::string &getName(EqObjPtr p) { return p->name; }
double getDoubleValue(EqObjPtr p) { return p->value; }
std::vector<EqObjPtr> getArgs(EqObjPtr p) { return p->args; }
EqObjType getEnumeratedType(EqObjPtr p) { return p->type; }
std::set<std::string> getReferencedType(EqObjPtr p, EqObjType t)
{
  std::set<std::string> o;
  collect(p, t, o);
  return o;
}
EqObjPtr con(double v) { return mkcon(v); }
EqObjPtr mod(const std::string &n) { return mkid(n, true); }
void SetModelListCallBack(ModelListCallBack c) { modelcb = c; }
void SetDerivativeRule(DerivativeRule r) { derivrule = r; }
void ResetAllData()
{
  delete functable;
  functable = nullptr;
  modelcb = nullptr;
  derivrule = nullptr;
}
}

namespace EvalExpr {
EqObjPtr evaluateExpression(const std::string &e, error_t &errors)
{
  try
  {
    Parser p(e);
    return p.statements();
  }
  catch (const std::runtime_error &x)
  {
    errors.push_back(x.what());
  }
  return EqObjPtr();
}
}
