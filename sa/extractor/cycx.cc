// cycx: clang LibTooling extractor.  Dumps the resolved program (functions with
// bodies, records, enums, globals) of one translation unit as one JSON object.
// Only entities whose expansion location lies under one of --root directories
// are emitted.  Nothing is executed; this is a pure front-end pass.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;
static int Errors = 0;

class X : public RecursiveASTVisitor<X> {
 public:
  ASTContext& C;
  PrintingPolicy P;
  json::Array funcs, recs, enums, globals, types;
  std::map<std::string, int> tyix;
  std::set<std::string> seen;
  std::map<const Decl*, int> ids;
  explicit X(ASTContext& c) : C(c), P(c.getPrintingPolicy()) {
    P.SuppressTagKeyword = true;
    P.FullyQualifiedName = true;
    P.SuppressUnwrittenScope = false;
    P.Bool = true;
    P.AnonymousTagLocations = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  int declId(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = (int)ids.size();
    ids[d] = n;
    return n;
  }
  std::string tyStr(QualType t) {
    if (t.isNull()) return "";
    return t.getCanonicalType().getAsString(P);
  }
  int ty(QualType t) {
    std::string s = tyStr(t);
    auto it = tyix.find(s);
    if (it != tyix.end()) return it->second;
    int n = (int)tyix.size();
    tyix[s] = n;
    types.push_back(s);
    return n;
  }
  std::string file(SourceLocation l) {
    SourceManager& S = C.getSourceManager();
    l = S.getExpansionLoc(l);
    return S.getFilename(l).str();
  }
  int line(SourceLocation l) {
    SourceManager& S = C.getSourceManager();
    return (int)S.getExpansionLineNumber(l);
  }
  bool inRoot(SourceLocation l) {
    std::string f = file(l);
    for (auto& r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string qn(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->getNameForDiagnostic(os, P, true);
    return os.str();
  }
  std::string plainName(const NamedDecl* d) {
    // qualified name without any template arguments
    return d->getQualifiedNameAsString();
  }
  std::string fkey(const FunctionDecl* f) {
    std::string s = qn(f) + "(";
    for (unsigned i = 0; i < f->getNumParams(); i++) {
      if (i) s += ", ";
      s += tyStr(f->getParamDecl(i)->getType());
    }
    s += ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->isConst()) s += " const";
    return s;
  }

  // ------------------------------------------------------------ expressions
  const Expr* strip(const Expr* e) {
    for (;;) {
      if (!e) return e;
      if (auto* p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
        // keep int<->double casts visible as nodes
        auto ck = p->getCastKind();
        if (ck == CK_FloatingToIntegral || ck == CK_IntegralToFloating) return e;
        if (ck == CK_NullToPointer && isa<IntegerLiteral>(p->getSubExpr()->IgnoreParens())) return e;  // 0 as a pointer
        e = p->getSubExpr();
        continue;
      }
      if (auto* p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
      if (auto* p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
      if (auto* p = dyn_cast<FullExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<OpaqueValueExpr>(e)) { if (p->getSourceExpr()) { e = p->getSourceExpr(); continue; } return e; }
      if (auto* p = dyn_cast<CXXConstructExpr>(e)) {
        if (!isa<CXXTemporaryObjectExpr>(p) && p->getNumArgs() >= 1 &&
            p->getConstructor()->isCopyOrMoveConstructor()) {
          e = p->getArg(0);
          continue;
        }
      }
      return e;
    }
  }
  json::Array args(const Expr* const* a, unsigned n) {
    json::Array r;
    for (unsigned i = 0; i < n; i++) {
      const Expr* x = a[i];
      if (auto* d = dyn_cast<CXXDefaultArgExpr>(x)) {
        json::Value v = ex(d->getExpr());
        if (auto* o = v.getAsObject()) (*o)["dflt"] = 1;
        r.push_back(std::move(v));
      } else {
        r.push_back(ex(x));
      }
    }
    return r;
  }
  json::Value deref(json::Value v) {
    return json::Object{{"k", "Deref"}, {"e", std::move(v)}};
  }
  json::Value obj(const Expr* base, bool arrow) {
    const Expr* b = strip(base);
    if (isa<CXXThisExpr>(b)) return json::Object{{"k", "This"}};
    if (arrow) {
      // overloaded operator-> : Deref of the smart pointer itself
      if (auto* oc = dyn_cast<CXXOperatorCallExpr>(b))
        if (oc->getOperator() == OO_Arrow) return deref(ex(oc->getArg(0)));
      return deref(ex(b));
    }
    // (*this).x
    if (auto* u = dyn_cast<UnaryOperator>(b))
      if (u->getOpcode() == UO_Deref && isa<CXXThisExpr>(strip(u->getSubExpr())))
        return json::Object{{"k", "This"}};
    return ex(b);
  }
  void callee(json::Object& o, const FunctionDecl* f) {
    o["f"] = fkey(f);
    o["n"] = plainName(f);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) o["virt"] = 1;
      if (m->isStatic()) o["static"] = 1;
    }
    if (f->isNoReturn()) o["noret"] = 1;
  }
  json::Value ex(const Expr* e0) {
    const Expr* e = strip(e0);
    if (!e) return nullptr;
    json::Object o;
    auto L = [&](const Expr* q) { o["l"] = line(q->getExprLoc()); };
    if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
      if (x->getCastKind() == CK_NullToPointer) { o["k"] = "Null"; return std::move(o); }
      o["k"] = "Cast"; o["ck"] = "num"; o["t"] = ty(x->getType()); o["e"] = ex(x->getSubExpr());
      return std::move(o);
    }
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["k"] = "Int"; o["v"] = s.str().str(); return std::move(o);
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "Flt"; o["v"] = x->getValueAsApproximateDouble(); return std::move(o);
    }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "Str"; o["v"] = x->getCharByteWidth() == 1 ? json::fixUTF8(x->getString()) : std::string("?"); return std::move(o);
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "Chr"; o["v"] = (int64_t)x->getValue(); return std::move(o); }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "Bool"; o["v"] = x->getValue(); return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "Null"; return std::move(o); }
    if (isa<CXXThisExpr>(e)) { o["k"] = "ThisPtr"; return std::move(o); }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      o["k"] = "Ref"; o["n"] = d->getNameAsString(); o["t"] = ty(d->getType());
      if (auto* fd = dyn_cast<FunctionDecl>(d)) { o["s"] = "func"; o["f"] = fkey(fd); o["n"] = plainName(fd); }
      else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { o["s"] = "enum"; o["n"] = plainName(ec); llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["v"] = s.str().str(); }
      else if (auto* vd = dyn_cast<VarDecl>(d)) {
        if (isa<ParmVarDecl>(vd)) o["s"] = "param";
        else if (vd->isStaticLocal()) o["s"] = "static";
        else if (vd->isLocalVarDecl()) o["s"] = "local";
        else { o["s"] = "global"; o["n"] = plainName(vd); }
        o["d"] = declId(vd);
      } else if (auto* bd = dyn_cast<BindingDecl>(d)) {
        if (bd->getHoldingVar()) {   // tuple-like: a member of the decomposed object
          auto* dd = cast<DecompositionDecl>(bd->getDecomposedDecl());
          unsigned i = 0; for (auto* b : dd->bindings()) { if (b == bd) break; ++i; }
          std::string m = dd->bindings().size() == 2 ? (i ? "second" : "first") : std::to_string(i);
          json::Object r{{"k", "Ref"}, {"n", "<decomp>"}, {"t", ty(dd->getType())}, {"s", "local"}, {"d", declId(dd)}, {"l", line(e->getBeginLoc())}};
          o["k"] = "Mem"; o["n"] = "std::pair::" + m; o["m"] = m; o["b"] = std::move(r);
          return std::move(o);
        }
        if (bd->getBinding()) return ex(bd->getBinding());
        o["s"] = "binding"; o["d"] = declId(bd);
      } else { o["s"] = "other"; o["d"] = declId(d); }
      return std::move(o);
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl* d = x->getMemberDecl();
      if (auto* vd = dyn_cast<VarDecl>(d)) {  // static data member
        o["k"] = "Ref"; o["s"] = "global"; o["n"] = plainName(vd); o["t"] = ty(vd->getType()); o["d"] = declId(vd);
        return std::move(o);
      }
      o["k"] = "Mem"; o["n"] = plainName(d); o["m"] = d->getNameAsString(); o["t"] = ty(x->getType());
      o["b"] = obj(x->getBase(), x->isArrow());
      if (auto* fd = dyn_cast<FunctionDecl>(d)) { o["f"] = fkey(fd); }
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      const FunctionDecl* f = x->getDirectCallee();
      OverloadedOperatorKind k = x->getOperator();
      L(e);
      if (k == OO_Arrow) return deref(ex(x->getArg(0)));
      if (k == OO_Star && x->getNumArgs() == 1) {
        if (isa<CXXThisExpr>(strip(x->getArg(0)))) { return json::Object{{"k", "This"}}; }
        return deref(ex(x->getArg(0)));
      }
      if (k == OO_Subscript) {
        o["k"] = "Idx"; o["b"] = ex(x->getArg(0)); o["i"] = ex(x->getArg(1)); o["t"] = ty(x->getType());
        if (f) { o["ov"] = fkey(f); }
        return std::move(o);
      }
      if (k == OO_Call) {
        o["k"] = "Call"; o["t"] = ty(x->getType());
        if (f) callee(o, f);
        o["o"] = ex(x->getArg(0)); o["opcall"] = 1;
        o["a"] = args(x->getArgs() + 1, x->getNumArgs() - 1);
        return std::move(o);
      }
      if (f) o["ov"] = fkey(f);
      o["t"] = ty(x->getType());
      const char* sp = getOperatorSpelling(k);
      if (x->isAssignmentOp()) {
        o["k"] = "Asg"; o["op"] = sp; o["x"] = ex(x->getArg(0)); o["y"] = ex(x->getArg(1));
        return std::move(o);
      }
      if (k == OO_PlusPlus || k == OO_MinusMinus) {
        o["k"] = "Inc"; o["op"] = sp; o["e"] = ex(x->getArg(0)); o["post"] = x->getNumArgs() == 2;
        return std::move(o);
      }
      if (x->getNumArgs() == 2) {
        o["k"] = "Bin"; o["op"] = sp; o["x"] = ex(x->getArg(0)); o["y"] = ex(x->getArg(1));
        return std::move(o);
      }
      o["k"] = "Un"; o["op"] = sp; o["e"] = ex(x->getArg(0));
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "Call"; L(e); o["t"] = ty(x->getType());
      const CXXMethodDecl* m = x->getMethodDecl();
      if (m) {
        callee(o, m);
        auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
        if (me) {
          o["o"] = obj(me->getBase(), me->isArrow());
          o["ot"] = ty(me->isArrow() ? me->getBase()->getType()->getPointeeType() : me->getBase()->getType());
          if (me->hasQualifier()) o["qual"] = 1;
        }
      } else {
        o["fe"] = ex(x->getCallee());
      }
      o["a"] = args(x->getArgs(), x->getNumArgs());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      o["k"] = "Call"; L(e); o["t"] = ty(x->getType());
      if (const FunctionDecl* f = x->getDirectCallee()) callee(o, f);
      else o["fe"] = ex(x->getCallee());
      o["a"] = args(x->getArgs(), x->getNumArgs());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "Ctor"; L(e); o["t"] = ty(x->getType());
      o["f"] = fkey(x->getConstructor()); o["n"] = plainName(x->getConstructor()->getParent());
      bool expl = isa<CXXTemporaryObjectExpr>(x);
      if (!expl) o["imp"] = 1;
      if (x->getNumArgs() == 1 || (x->getNumArgs() > 1 && isa<CXXDefaultArgExpr>(x->getArg(1))))
        o["at"] = ty(strip(x->getArg(0))->getType());
      o["a"] = args(x->getArgs(), x->getNumArgs());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "New"; L(e); o["t"] = ty(x->getAllocatedType());
      if (x->isArray() && x->getArraySize()) o["n"] = ex(*x->getArraySize());
      if (x->getInitializer()) o["i"] = ex(x->getInitializer());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "Delete"; L(e); o["arr"] = x->isArrayForm(); o["e"] = ex(x->getArgument());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "Throw"; L(e);
      if (x->getSubExpr()) { o["e"] = ex(x->getSubExpr()); o["t"] = ty(x->getSubExpr()->getType()); }
      return std::move(o);
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      L(e); o["t"] = ty(x->getType());
      if (x->isAssignmentOp()) { o["k"] = "Asg"; } else { o["k"] = "Bin"; }
      o["op"] = x->getOpcodeStr().str(); o["x"] = ex(x->getLHS()); o["y"] = ex(x->getRHS());
      return std::move(o);
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      L(e);
      switch (x->getOpcode()) {
        case UO_Deref:
          if (isa<CXXThisExpr>(strip(x->getSubExpr()))) return json::Object{{"k", "This"}};
          return deref(ex(x->getSubExpr()));
        case UO_AddrOf:
          o["k"] = "Addr"; o["e"] = ex(x->getSubExpr()); return std::move(o);
        case UO_PostInc: case UO_PostDec: case UO_PreInc: case UO_PreDec:
          o["k"] = "Inc"; o["op"] = x->isIncrementOp() ? "++" : "--"; o["post"] = x->isPostfix(); o["e"] = ex(x->getSubExpr()); return std::move(o);
        case UO_Plus: case UO_Extension: return ex(x->getSubExpr());
        default:
          o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["e"] = ex(x->getSubExpr()); return std::move(o);
      }
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "Idx"; o["b"] = ex(x->getBase()); o["i"] = ex(x->getIdx()); o["t"] = ty(x->getType()); return std::move(o);
    }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "Cond"; o["c"] = ex(x->getCond()); o["x"] = ex(x->getTrueExpr()); o["y"] = ex(x->getFalseExpr()); o["t"] = ty(x->getType()); return std::move(o);
    }
    if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
      if (isa<CXXFunctionalCastExpr>(x) || isa<CStyleCastExpr>(x) || isa<CXXStaticCastExpr>(x)) {
        // a cast that constructs: show the construction
        const Expr* s = strip(x->getSubExpr());
        if (isa<CXXConstructExpr>(s) && x->getCastKind() == CK_ConstructorConversion) {
          json::Value v = ex(s);
          if (auto* oo = v.getAsObject()) oo->erase("imp");
          return v;
        }
      }
      o["k"] = "Cast"; o["ck"] = isa<CXXDynamicCastExpr>(x) ? "dynamic" : (isa<CXXReinterpretCastExpr>(x) ? "reinterpret" : "static");
      o["t"] = ty(x->getType()); o["e"] = ex(x->getSubExpr()); return std::move(o);
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      o["k"] = "List"; o["t"] = ty(x->getType());
      json::Array a; for (auto* i : x->inits()) a.push_back(ex(i));
      o["a"] = std::move(a); return std::move(o);
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "Lambda"; L(e);
      auto* m = x->getCallOperator();
      json::Array ps; for (auto* p : m->parameters()) ps.push_back(json::Object{{"n", p->getNameAsString()}, {"d", declId(p)}, {"t", ty(p->getType())}});
      o["ps"] = std::move(ps); o["body"] = st(x->getBody());
      json::Array caps;
      for (auto& c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = 1;
        else if (c.capturesVariable()) { co["n"] = c.getCapturedVar()->getNameAsString(); co["ref"] = c.getCaptureKind() == LCK_ByRef; co["d"] = declId(c.getCapturedVar()); }
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      return std::move(o);
    }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      o["k"] = "Sizeof"; o["st"] = ty(x->getTypeOfArgument()); 
      if (!x->isArgumentType()) o["e"] = ex(x->getArgumentExpr());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { o["k"] = "Typeid"; if (!x->isTypeOperand()) o["e"] = ex(x->getExprOperand()); else o["st"] = ty(x->getTypeOperand(C)); return std::move(o); }
    if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) { o["k"] = "Zero"; o["t"] = ty(x->getType()); return std::move(o); }
    if (auto* x = dyn_cast<ImplicitValueInitExpr>(e)) { o["k"] = "Zero"; o["t"] = ty(x->getType()); return std::move(o); }
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return ex(x->getExpr());
    // anything else (dependent code, statement expressions, ...): keep children
    o["k"] = "Other"; o["cls"] = e->getStmtClassName(); L(e);
    json::Array a;
    for (const Stmt* c : e->children()) if (c) { if (auto* ce = dyn_cast<Expr>(c)) a.push_back(ex(ce)); else a.push_back(st(c)); }
    o["a"] = std::move(a);
    if (auto* u = dyn_cast<UnresolvedMemberExpr>(e)) o["n"] = u->getMemberName().getAsString();
    if (auto* u = dyn_cast<CXXDependentScopeMemberExpr>(e)) o["n"] = u->getMember().getAsString();
    return std::move(o);
  }
  // ------------------------------------------------------------- statements
  json::Value var(const VarDecl* v) {
    json::Object o{{"n", v->getNameAsString()}, {"d", declId(v)}, {"t", ty(v->getType())}, {"l", line(v->getLocation())}};
    if (v->isStaticLocal()) o["static"] = 1;
    if (v->getInit()) {
      const Expr* i = strip(v->getInit());
      auto* ce = dyn_cast<CXXConstructExpr>(i);
      o["i"] = ex(i);
      if (ce && ce->getNumArgs() == 0) o["dfltctor"] = 1;
    }
    return std::move(o);
  }
  json::Value st(const Stmt* s) {
    if (!s) return nullptr;
    json::Object o;
    o["l"] = line(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      json::Array a; for (auto* c : x->body()) a.push_back(st(c));
      o["k"] = "Block"; o["b"] = std::move(a); return std::move(o);
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      json::Array a;
      for (auto* d : x->decls()) {
        if (auto* dd = dyn_cast<DecompositionDecl>(d)) {
          json::Object v{{"n", "<decomp>"}, {"d", declId(dd)}, {"t", ty(dd->getType())}, {"l", line(dd->getLocation())}};
          if (dd->getInit()) v["i"] = ex(dd->getInit());
          json::Array bs; for (auto* b : dd->bindings()) bs.push_back(json::Object{{"n", b->getNameAsString()}, {"d", declId(b)}});
          v["binds"] = std::move(bs);
          a.push_back(std::move(v));
        } else if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      }
      o["k"] = "Decl"; o["v"] = std::move(a); return std::move(o);
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "If";
      if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = ex(x->getCond()); o["th"] = st(x->getThen());
      if (x->getElse()) o["el"] = st(x->getElse());
      return std::move(o);
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "While"; if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return std::move(o);
    }
    if (auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "Do"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return std::move(o); }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "For"; if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getCond()) o["c"] = ex(x->getCond());
      if (x->getInc()) o["inc"] = ex(x->getInc());
      o["b"] = st(x->getBody()); return std::move(o);
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "RFor"; 
      const VarDecl* lv = x->getLoopVariable();
      json::Object v{{"n", lv->getNameAsString()}, {"d", declId(lv)}, {"t", ty(lv->getType())}, {"l", line(lv->getLocation())}};
      if (auto* dd = dyn_cast<DecompositionDecl>(lv)) {
        json::Array bs; for (auto* b : dd->bindings()) bs.push_back(json::Object{{"n", b->getNameAsString()}, {"d", declId(b)}});
        v["binds"] = std::move(bs);
      }
      o["v"] = std::move(v);
      o["r"] = ex(x->getRangeInit()); o["b"] = st(x->getBody()); return std::move(o);
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "Switch"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody());
      if (x->getCond()) o["ct"] = ty(x->getCond()->IgnoreImpCasts()->getType());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) { o["k"] = "Case"; o["e"] = ex(x->getLHS()); o["s"] = st(x->getSubStmt()); return std::move(o); }
    if (auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "Default"; o["s"] = st(x->getSubStmt()); return std::move(o); }
    if (auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "Return"; if (x->getRetValue()) o["e"] = ex(x->getRetValue()); return std::move(o); }
    if (isa<BreakStmt>(s)) { o["k"] = "Break"; return std::move(o); }
    if (isa<ContinueStmt>(s)) { o["k"] = "Continue"; return std::move(o); }
    if (isa<NullStmt>(s)) { o["k"] = "NullS"; return std::move(o); }
    if (auto* x = dyn_cast<GotoStmt>(s)) { o["k"] = "Goto"; o["n"] = x->getLabel()->getNameAsString(); return std::move(o); }
    if (auto* x = dyn_cast<LabelStmt>(s)) { o["k"] = "Label"; o["n"] = x->getName(); o["s"] = st(x->getSubStmt()); return std::move(o); }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return st(x->getSubStmt());
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "Try"; o["b"] = st(x->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        auto* c = x->getHandler(i);
        json::Object ho{{"b", st(c->getHandlerBlock())}, {"l", line(c->getBeginLoc())}};
        if (c->getExceptionDecl()) { ho["t"] = ty(c->getExceptionDecl()->getType()); ho["d"] = declId(c->getExceptionDecl()); }
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h); return std::move(o);
    }
    if (auto* x = dyn_cast<Expr>(s)) { o["k"] = "Expr"; o["e"] = ex(x); return std::move(o); }
    o["k"] = "OtherS"; o["cls"] = s->getStmtClassName();
    json::Array a; for (const Stmt* c : s->children()) if (c) a.push_back(st(c));
    o["b"] = std::move(a);
    return std::move(o);
  }
  // ------------------------------------------------------------------ decls
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->isThisDeclarationADefinition() || f->isDeleted()) return true;
    if (f->isDependentContext()) return true;   // only instantiations
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (!inRoot(f->getLocation())) return true;
    bool isdef = f->isDefaulted();
    if (!f->hasBody() && !isdef) return true;
    std::string key = fkey(f);
    if (f->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(f)) key += "@" + file(f->getLocation());
    if (!seen.insert("F" + key).second) return true;
    json::Object o;
    o["key"] = key; o["n"] = plainName(f); o["qn"] = qn(f); o["file"] = file(f->getLocation()); o["l"] = line(f->getLocation());
    o["le"] = line(f->getEndLoc());
    o["t"] = ty(f->getReturnType());
    json::Array ps;
    for (auto* p : f->parameters()) {
      json::Object po{{"n", p->getNameAsString()}, {"d", declId(p)}, {"t", ty(p->getType())}};
      if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg()) {
        const Expr* da = p->hasUninstantiatedDefaultArg() ? p->getUninstantiatedDefaultArg() : p->getDefaultArg();
        if (da && !da->isTypeDependent() && !da->isValueDependent()) po["dv"] = ex(da);
      }
      ps.push_back(std::move(po));
    }
    o["ps"] = std::move(ps);
    if (isdef) o["defaulted"] = 1;
    if (f->isImplicit()) o["implicit"] = 1;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = qn(m->getParent()); o["clsn"] = plainName(m->getParent());
      if (m->isVirtual()) o["virt"] = 1;
      if (m->isStatic()) o["static"] = 1;
      if (m->isConst()) o["const"] = 1;
      json::Array ov; for (auto* b : m->overridden_methods()) ov.push_back(fkey(b));
      if (!ov.empty()) o["over"] = std::move(ov);
      o["acc"] = (int)m->getAccess();
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o["kind"] = "ctor";
      if (c->isCopyConstructor()) o["copy"] = 1;
      if (c->isMoveConstructor()) o["move"] = 1;
      json::Array in;
      for (auto* i : c->inits()) {
        json::Object io{{"l", line(i->getSourceLocation())}};
        io["written"] = i->isWritten();
        if (i->isAnyMemberInitializer()) io["m"] = plainName(i->getAnyMember());
        else if (i->isBaseInitializer()) io["base"] = tyStr(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["deleg"] = 1;
        io["e"] = ex(i->getInit());
        if (isa<CXXDefaultInitExpr>(i->getInit())) io["dmi"] = 1;
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    } else if (isa<CXXDestructorDecl>(f)) o["kind"] = "dtor";
    else if (isa<CXXConversionDecl>(f)) o["kind"] = "conv";
    if (f->isOverloadedOperator()) o["oper"] = getOperatorSpelling(f->getOverloadedOperator());
    if (f->hasBody()) o["body"] = st(f->getBody());
    funcs.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
    if (!inRoot(r->getLocation())) return true;
    std::string n = qn(r);
    if (!seen.insert("R" + n).second) return true;
    json::Object o{{"n", n}, {"pn", plainName(r)}, {"file", file(r->getLocation())}, {"l", line(r->getLocation())}};
    json::Array bs; for (auto& b : r->bases()) bs.push_back(json::Object{{"t", tyStr(b.getType())}, {"virt", b.isVirtual()}});
    o["bases"] = std::move(bs);
    json::Array fs;
    for (auto* f : r->fields()) {
      QualType t = f->getType().getCanonicalType();
      fs.push_back(json::Object{{"n", f->getNameAsString()}, {"t", ty(t)}, {"l", line(f->getLocation())},
        {"dmi", f->hasInClassInitializer()}, {"scalar", t->isScalarType()}, {"ref", t->isReferenceType()}, {"acc", (int)f->getAccess()}});
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto* m : r->methods()) {
      json::Object mo{{"key", fkey(m)}, {"n", m->getNameAsString()}, {"virt", m->isVirtual()}, {"pure", m->isPureVirtual()},
        {"user", m->isUserProvided()}, {"deleted", m->isDeleted()}, {"implicit", m->isImplicit()}, {"static", m->isStatic()}, {"const", m->isConst()}, {"acc", (int)m->getAccess()}, {"t", ty(m->getReturnType())}};
      json::Array ov; for (auto* b : m->overridden_methods()) ov.push_back(fkey(b));
      mo["over"] = std::move(ov);
      if (auto* c = dyn_cast<CXXConstructorDecl>(m)) { mo["ctor"] = 1; if (c->isCopyConstructor()) mo["copy"] = 1; }
      if (isa<CXXDestructorDecl>(m)) mo["dtor"] = 1;
      if (m->isCopyAssignmentOperator()) mo["copyasg"] = 1;
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    recs.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (!e->isThisDeclarationADefinition() || !inRoot(e->getLocation())) return true;
    std::string n = qn(e);
    if (n.empty() || !seen.insert("E" + n).second) return true;
    json::Array cs;
    for (auto* c : e->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); cs.push_back(json::Object{{"n", plainName(c)}, {"v", s.str().str()}, {"l", line(c->getLocation())}}); }
    enums.push_back(json::Object{{"n", n}, {"file", file(e->getLocation())}, {"l", line(e->getLocation())}, {"c", std::move(cs)}});
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage() || v->isStaticLocal() || isa<ParmVarDecl>(v)) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    if (!v->isThisDeclarationADefinition() || !inRoot(v->getLocation())) return true;
    std::string n = plainName(v);
    if (!seen.insert("G" + n + file(v->getLocation())).second) return true;
    json::Object o{{"n", n}, {"t", ty(v->getType())}, {"file", file(v->getLocation())}, {"l", line(v->getLocation())}};
    if (v->getInit()) o["i"] = ex(v->getInit());
    o["const"] = v->getType().isConstQualified();
    globals.push_back(std::move(o));
    return true;
  }
};

class Cons : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& c) override {
    X x(c);
    x.TraverseDecl(c.getTranslationUnitDecl());
    json::Object o{{"functions", std::move(x.funcs)}, {"records", std::move(x.recs)}, {"enums", std::move(x.enums)},
                   {"globals", std::move(x.globals)}, {"types", std::move(x.types)}};
    o["errors"] = (int)c.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    os << json::Value(std::move(o));
  }
};
class Act : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); }
};

// usage: cycx OUT ROOT[:ROOT..] FILE -- flags
int main(int argc, const char** argv) {
  if (argc < 5) { llvm::errs() << "usage: cycx OUT ROOTS FILE -- flags\n"; return 2; }
  OutPath = argv[1];
  std::string roots = argv[2];
  size_t p = 0;
  while (p <= roots.size()) { size_t q = roots.find(':', p); if (q == std::string::npos) q = roots.size(); Roots.push_back(roots.substr(p, q - p)); p = q + 1; }
  std::vector<std::string> flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {argv[3]});
  int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
  return rc;
}
