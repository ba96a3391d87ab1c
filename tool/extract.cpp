// batsx: exports the resolved (type-checked, template-instantiated) program of a
// translation unit as JSON.  Only functions defined under the given root
// directories are exported.  Nothing is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Lex/Preprocessor.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_map>
using namespace clang;
using llvm::json::Value;
using llvm::json::Object;
using llvm::json::Array;

static std::vector<std::string> Roots;
static std::string OutPath;
static bool HadError = false;
static bool AllowErrors = false; // errors are printed; the driver script decides which are acceptable

class Exporter : public RecursiveASTVisitor<Exporter> {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unordered_map<const void *, int> Ids;
  std::map<std::string, int> Types;
  std::vector<std::string> TypeList;
  std::set<const FunctionDecl *> Done;
  std::vector<const FunctionDecl *> Work;
  Array Funcs, Recs, Globals;
  std::map<std::string,int> Files;
  std::vector<std::string> FileList;
  std::set<const Decl*> RecDone;

  Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.TerseOutput = true; PP.Bool = true;
    PP.SuppressUnwrittenScope = true; PP.SuppressInlineNamespace=true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  int id(const Decl *D) {
    if (!D) return -1;
    const void *k = D->getCanonicalDecl();
    auto it = Ids.find(k);
    if (it != Ids.end()) return it->second;
    int n = Ids.size(); Ids[k] = n; return n;
  }
  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = Types.find(s);
    if (it != Types.end()) return it->second;
    int n = TypeList.size(); TypeList.push_back(s); Types[s] = n; return n;
  }
  int file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string f = SM.getFilename(L).str();
    auto it = Files.find(f);
    if (it != Files.end()) return it->second;
    int n = FileList.size(); FileList.push_back(f); Files[f] = n; return n;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    StringRef f = SM.getFilename(L);
    for (auto &r : Roots) if (f.starts_with(r)) return true;
    return false;
  }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    // qualified name without template arguments
    D->printQualifiedName(os, PP);
    os.flush();
    return s;
  }
  // name with class template arguments stripped
  std::string bareName(const NamedDecl *D) {
    std::vector<std::string> parts;
    parts.push_back(D->getNameAsString());
    const DeclContext *DC = D->getDeclContext();
    while (DC) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isAnonymousNamespace() && !NS->isInline()) parts.push_back(NS->getNameAsString());
      } else if (auto *RD = dyn_cast<RecordDecl>(DC)) {
        if (auto *CR = dyn_cast<CXXRecordDecl>(RD); CR && CR->isLambda()) parts.push_back("(lambda)");
        else parts.push_back(RD->getNameAsString());
      } else if (auto *FD = dyn_cast<FunctionDecl>(DC)) {
        parts.push_back(FD->getNameAsString() + "()");
      }
      DC = DC->getParent();
    }
    std::string s;
    for (size_t i = parts.size(); i-- > 0;) { s += parts[i]; if (i) s += "::"; }
    return s;
  }
  const FunctionDecl *defOf(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->isDefined(D)) return D;
    if (auto *P = F->getTemplateInstantiationPattern()) (void)P;
    return nullptr;
  }
  // reference to a callee
  void callee(Object &o, const FunctionDecl *F) {
    if (!F) return;
    o["f"] = bareName(F);
    o["fid"] = id(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) o["cm"] = 1;
      if (M->isStatic()) o["st"] = 1;
    }
    if (inRoots(F->getLocation())) {
      o["r"] = 1;
      if (const FunctionDecl *D = defOf(F)) if (!Done.count(D)) Work.push_back(D);
    }
    if (F->isVariadic()) o["va"] = 1;
    if (F->isNoReturn()) o["noret"] = 1;
    // by-ref (non-const) parameters: list of indices
    Array mr;
    for (unsigned i = 0; i < F->getNumParams(); i++) {
      QualType T = F->getParamDecl(i)->getType();
      if ((T->isReferenceType() && !T.getNonReferenceType().isConstQualified()) ||
          (T->isPointerType() && !T->getPointeeType().isConstQualified()))
        mr.push_back((int)i);
    }
    if (!mr.empty()) o["mr"] = std::move(mr);
  }
  Value expr(const Expr *E) {
    if (!E) return nullptr;
    Value v = expr1(E);
    if (auto *o = v.getAsObject()) {
      if (!o->get("l")) (*o)["l"] = line(E->getExprLoc().isValid() ? E->getExprLoc() : E->getBeginLoc());
      if (!o->get("t")) (*o)["t"] = type(E->getType());
    }
    return v;
  }
  Array exprs(ArrayRef<const Expr *> es) { Array a; for (auto *e : es) a.push_back(expr(e)); return a; }
  Object node(const char *k) { Object o; o["k"] = k; return o; }

  Value expr1(const Expr *E) {
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { Value v = expr(X->getExpr()); if (auto*o=v.getAsObject()) (*o)["dflt"]=1; return v; }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXConstCastExpr>(E)) { Object o = node("cast"); o["e"] = expr(X->getSubExpr()); o["ck"] = "const_cast"; return std::move(o); }
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_IntegralCast: case CK_FloatingCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: 
      case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean: {
        Object o = node("cast"); o["imp"] = 1; o["e"] = expr(X->getSubExpr());
        o["ck"] = X->getCastKindName();
        return std::move(o);
      }
      default: return expr(X->getSubExpr());
      }
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      if (X->getCastKind() == CK_ConstructorConversion) return expr(X->getSubExpr());
      if (X->getCastKind() == CK_NoOp || X->getCastKind()==CK_LValueToRValue) {
        Value v = expr(X->getSubExpr()); 
        if (auto *o = v.getAsObject()) if (X->getType()->isIntegerType()) { }
        return v;
      }
      Object o = node("cast"); o["e"] = expr(X->getSubExpr()); o["ck"] = X->getCastKindName();
      return std::move(o);
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { Object o = node("int"); 
      llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = X->getValue().getActiveBits() <= 62 ? Value((int64_t)X->getValue().getZExtValue()) : Value(std::string(s)); return std::move(o); }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { Object o = node("bool"); o["v"] = X->getValue(); return std::move(o); }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { Object o = node("float"); 
      llvm::SmallString<32> s; X->getValue().toString(s); o["v"] = std::string(s); return std::move(o); }
    if (auto *X = dyn_cast<StringLiteral>(E)) { Object o = node("str"); if (X->getCharByteWidth()==1) { std::string s = X->getString().str(); if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s); o["v"] = s; } return std::move(o); }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { Object o = node("chr"); o["v"] = (int)X->getValue(); return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(E)) return node("null");
    if (isa<CXXThisExpr>(E)) return node("this");
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { Object o = node("fn"); callee(o, F); return std::move(o); }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { Object o = node("int"); o["v"] = EC->getInitVal().getExtValue(); o["n"] = bareName(EC); return std::move(o); }
      Object o = node("var"); o["d"] = id(D); o["n"] = D->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(V)) o["p"] = 1;
        else if (V->isStaticLocal()) o["g"] = "static";
        else if (V->hasGlobalStorage()) {
          o["g"] = V->getType().isConstQualified() ? "const" : "global";
          o["n"] = bareName(V);
          if (V->getType()->isIntegralOrEnumerationType() && V->getType().isConstQualified()) {
            Expr::EvalResult R;
            if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) {
               llvm::SmallString<32> s; R.Val.getInt().toString(s,10);
               o["cv"] = std::string(s);
            }
          }
        }
      } else if (isa<BindingDecl>(D)) o["bd"] = 1;
      return std::move(o);
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { Object o = node("var"); o["d"]=id(V); o["n"]=bareName(V); o["g"]= V->getType().isConstQualified() ? "const":"global"; 
        if (V->getType()->isIntegralOrEnumerationType()) { Expr::EvalResult R; if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s,10); o["cv"]=std::string(s);} }
        return std::move(o);} 
      Object o = node("mem"); o["b"] = expr(X->getBase()); o["n"] = X->getMemberDecl()->getNameAsString();
      o["d"] = id(X->getMemberDecl());
      if (X->isArrow()) o["a"] = 1;
      if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) { o["mf"] = 1; callee(o, F);} 
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = node("call");
      const CXXMethodDecl *M = X->getMethodDecl();
      callee(o, M);
      if (M && M->isVirtual()) o["virt"] = 1;
      o["o"] = expr(X->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) if (ME->isArrow()) o["oa"] = 1;
      Array a; for (auto *e : X->arguments()) a.push_back(expr(e)); o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = node("call");
      const FunctionDecl *F = X->getDirectCallee();
      if (F) callee(o, F); else o["fx"] = expr(X->getCallee());
      o["op"] = getOperatorSpelling(X->getOperator());
      unsigned s = 0;
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["o"] = expr(X->getArg(0)); s = 1; }
      Array a; for (unsigned i = s; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i))); o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      Object o = node("call");
      if (const FunctionDecl *F = X->getDirectCallee()) callee(o, F); else o["fx"] = expr(X->getCallee());
      Array a; for (auto *e : X->arguments()) a.push_back(expr(e)); o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *D = X->getConstructor();
      if (X->getNumArgs() == 1 && (D->isCopyConstructor() || D->isMoveConstructor()) && X->isElidable()) return expr(X->getArg(0));
      Object o = node("ctor");
      callee(o, D);
      if (D->isCopyConstructor()) o["cp"] = 1;
      if (D->isMoveConstructor()) o["mv"] = 1;
      if (D->isDefaulted()) o["dfd"] = 1;
      if (X->isListInitialization()) o["li"] = 1;
      Array a; for (auto *e : X->arguments()) a.push_back(expr(e)); o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { Object o = node("ctor"); callee(o, X->getConstructor()); o["a"] = Array(); return std::move(o);} 
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      Object o = node("bin"); o["op"] = X->getOpcodeStr().str(); o["x"] = expr(X->getLHS()); o["y"] = expr(X->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) o["ct"] = type(CA->getComputationResultType());
      return std::move(o);
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Object o = node("un"); o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) o["post"] = 1;
      o["e"] = expr(X->getSubExpr()); return std::move(o);
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { Object o = node("idx"); o["b"] = expr(X->getBase()); o["i"] = expr(X->getIdx()); return std::move(o); }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { Object o = node("cond"); o["c"] = expr(X->getCond()); o["x"] = expr(X->getTrueExpr()); o["y"] = expr(X->getFalseExpr()); return std::move(o); }
    if (auto *X = dyn_cast<InitListExpr>(E)) { Object o = node("il"); Array a; for (auto *e : X->inits()) a.push_back(expr(e)); o["a"] = std::move(a); return std::move(o); }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Object o = node("lambda");
      const CXXMethodDecl *M = X->getCallOperator();
      o["fid"] = id(M);
      if (!M->getParent()->isGenericLambda()) Work.push_back(M);
      Array caps;
      auto ii = X->capture_init_begin();
      for (auto &c : X->captures()) {
        Object co;
        if (c.capturesThis()) { co["this"] = 1; co["ref"]= c.getCaptureKind()==LCK_This; }
        else if (c.capturesVariable()) { co["d"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); co["ref"] = c.getCaptureKind() == LCK_ByRef; co["init"]= (*ii) ? expr(*ii) : Value(nullptr);} 
        caps.push_back(std::move(co)); ++ii;
      }
      o["caps"] = std::move(caps);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { Object o = node("new"); if (X->isArray()) { o["arr"] = 1; if (X->getArraySize()) o["n"] = expr(*X->getArraySize()); } if (X->getInitializer()) o["e"] = expr(X->getInitializer()); return std::move(o); }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { Object o = node("delete"); if (X->isArrayForm()) o["arr"] = 1; o["e"] = expr(X->getArgument()); return std::move(o); }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { Object o = node("throw"); o["e"] = X->getSubExpr() ? expr(X->getSubExpr()) : Value(nullptr); return std::move(o); }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return node("zero");
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { Object o = node("sizeof"); Expr::EvalResult R; if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) o["v"] = R.Val.getInt().getExtValue(); return std::move(o); }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { Object o = node("bool"); if (!X->isValueDependent()) o["v"] = X->getValue(); return std::move(o); }
    if (auto *X = dyn_cast<CXXFoldExpr>(E)) { Object o = node("fold"); return std::move(o); }
    if (auto *X = dyn_cast<PackExpansionExpr>(E)) { Object o = node("pack"); o["e"] = expr(X->getPattern()); return std::move(o); }
    // dependent forms
    if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(E)) { Object o = node("mem"); o["dep"] = 1; if (!X->isImplicitAccess()) o["b"] = expr(X->getBase()); else o["b"] = node("this"); o["n"] = X->getMember().getAsString(); if (X->isArrow()) o["a"]=1; return std::move(o); }
    if (auto *X = dyn_cast<UnresolvedMemberExpr>(E)) { Object o = node("mem"); o["dep"] = 1; if (!X->isImplicitAccess()) o["b"] = expr(X->getBase()); else o["b"] = node("this"); o["n"] = X->getMemberName().getAsString(); return std::move(o); }
    if (auto *X = dyn_cast<UnresolvedLookupExpr>(E)) { Object o = node("fn"); o["dep"] = 1; o["f"] = X->getName().getAsString(); return std::move(o); }
    if (auto *X = dyn_cast<DependentScopeDeclRefExpr>(E)) { Object o = node("fn"); o["dep"] = 1; o["f"] = X->getDeclName().getAsString(); return std::move(o); }
    if (auto *X = dyn_cast<CXXUnresolvedConstructExpr>(E)) { Object o = node("ctor"); o["dep"] = 1; Array a; for (auto *e : X->arguments()) a.push_back(expr(e)); o["a"] = std::move(a); return std::move(o); }
    if (auto *X = dyn_cast<ParenListExpr>(E)) { Object o = node("il"); Array a; for (unsigned i=0;i<X->getNumExprs();i++) a.push_back(expr(X->getExpr(i))); o["a"] = std::move(a); return std::move(o); }
    Object o = node("other"); o["c"] = E->getStmtClassName();
    Array ch; for (auto *S : E->children()) if (S) { if (auto *e = dyn_cast<Expr>(S)) ch.push_back(expr(e)); }
    o["ch"] = std::move(ch);
    return std::move(o);
  }

  Object varDecl(const VarDecl *V) {
    Object o; o["d"] = id(V); o["n"] = V->getNameAsString(); o["t"] = type(V->getType());
    o["l"] = line(V->getLocation());
    if (V->isStaticLocal()) o["static"] = 1;
    if (V->isStaticLocal() && V->getTSCSpec() != TSCS_unspecified) o["tls"] = 1;
    if (V->getType().isConstQualified() ) o["const"] = 1;
    if (V->getType()->isReferenceType()) o["ref"] = 1;
    if (V->getInit()) o["i"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) { Array b; for (auto *B : DD->bindings()) { Object bo; bo["d"] = id(B); bo["n"] = B->getNameAsString(); b.push_back(std::move(bo)); } o["binds"] = std::move(b); }
    return o;
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    Value v = stmt1(S);
    if (auto *o = v.getAsObject()) if (!o->get("l")) (*o)["l"] = line(S->getBeginLoc());
    return v;
  }
  Value stmt1(const Stmt *S) {
    if (auto *X = dyn_cast<CompoundStmt>(S)) { Object o = node("seq"); Array a; for (auto *s : X->body()) a.push_back(stmt(s)); o["s"] = std::move(a); o["e"]=line(X->getRBracLoc()); return std::move(o); }
    if (auto *X = dyn_cast<DeclStmt>(S)) { Object o = node("decl"); Array a; for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V)); o["v"] = std::move(a); return std::move(o); }
    if (auto *X = dyn_cast<IfStmt>(S)) { Object o = node("if");
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["x"] = stmt(X->getThen()); if (X->getElse()) o["y"] = stmt(X->getElse());
      if (X->isConstexpr()) { o["cx"] = 1; }
      return std::move(o); }
    if (auto *X = dyn_cast<ForStmt>(S)) { Object o = node("for"); if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getCond()) o["c"] = expr(X->getCond()); if (X->getInc()) o["inc"] = expr(X->getInc()); o["b"] = stmt(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<WhileStmt>(S)) { Object o = node("while"); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<DoStmt>(S)) { Object o = node("do"); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { Object o = node("rfor"); o["v"] = varDecl(X->getLoopVariable()); o["r"] = expr(X->getRangeInit()); o["b"] = stmt(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { Object o = node("ret"); if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return std::move(o); }
    if (isa<BreakStmt>(S)) return node("break");
    if (isa<ContinueStmt>(S)) return node("continue");
    if (isa<NullStmt>(S)) { Object o = node("seq"); o["s"] = Array(); return std::move(o);} 
    if (auto *X = dyn_cast<SwitchStmt>(S)) { Object o = node("switch"); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<CaseStmt>(S)) { Object o = node("case"); o["v"] = expr(X->getLHS()); o["b"] = stmt(X->getSubStmt()); return std::move(o); }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { Object o = node("default"); o["b"] = stmt(X->getSubStmt()); return std::move(o); }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { Object o = node("try"); o["b"] = stmt(X->getTryBlock()); Array a; for (unsigned i = 0; i < X->getNumHandlers(); i++) a.push_back(stmt(X->getHandler(i)->getHandlerBlock())); o["h"] = std::move(a); return std::move(o); }
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      Object o = node("omp"); o["dir"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      Array cl;
      for (auto *c : X->clauses()) if (c && !c->isImplicit()) {
        Object co; co["n"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        Array vs; for (auto *ch : c->children()) if (ch) if (auto *e = dyn_cast<Expr>(ch)) vs.push_back(expr(e));
        co["v"] = std::move(vs); 
        if (auto *D = dyn_cast<OMPDefaultClause>(c)) co["kind"]=(int)D->getDefaultKind();
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      if (X->hasAssociatedStmt()) {
        const Stmt *B = X->isStandaloneDirective() ? nullptr : X->getRawStmt();
        if (B) o["b"] = stmt(B);
      }
      return std::move(o);
    }
    if (auto *X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt());
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { Object o = node("label"); o["b"]=stmt(X->getSubStmt()); return std::move(o);} 
    if (auto *X = dyn_cast<Expr>(S)) { Object o = node("x"); o["e"] = expr(X); return std::move(o); }
    if (auto *X = dyn_cast<OMPCanonicalLoop>(S)) return stmt(X->getLoopStmt());
    Object o = node("otherS"); o["c"] = S->getStmtClassName();
    return std::move(o);
  }

  void record(const CXXRecordDecl *R) {
    if (!R || !R->hasDefinition()) return; R = R->getDefinition();
    if (!RecDone.insert(R).second) return;
    if (!inRoots(R->getLocation())) return;
    Object o; o["d"] = id(R); o["n"] = bareName(R); o["q"] = qname(R); o["fl"] = file(R->getLocation()); o["l"] = line(R->getLocation());
    o["t"] = type(C.getRecordType(R));
    o["dep"] = R->isDependentContext();
    Array fs;
    for (auto *F : R->fields()) { Object fo; fo["n"] = F->getNameAsString(); fo["t"] = type(F->getType()); fo["l"] = line(F->getLocation()); fo["acc"] = (int)F->getAccess();
      if (F->isMutable()) fo["mut"] = 1;
      if (F->hasInClassInitializer()) { fo["i"] = 1; if (!R->isDependentContext() && F->getInClassInitializer()) fo["ie"] = expr(F->getInClassInitializer()); }
      QualType T = F->getType(); fo["scalar"] = T->isDependentType() ? false : (T->isScalarType()); fo["ptr"]=T->isPointerType(); fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    Array bs; if (R->isDependentContext()==false || true) for (auto &B : R->bases()) bs.push_back(type(B.getType())); o["bases"] = std::move(bs);
    if (!R->isDependentContext()) {
      o["udcc"] = R->hasUserDeclaredCopyConstructor(); o["udca"] = R->hasUserDeclaredCopyAssignment();
      o["udd"] = R->hasUserDeclaredDestructor(); o["udmc"] = R->hasUserDeclaredMoveConstructor(); o["udma"] = R->hasUserDeclaredMoveAssignment();
      o["hasdc"] = R->hasDefaultConstructor(); o["uddc"] = R->hasUserProvidedDefaultConstructor();
    }
    Recs.push_back(std::move(o));
  }

  void emit(const FunctionDecl *F) {
    if (!F || !F->doesThisDeclarationHaveABody()) return;
    if (!Done.insert(F).second) return;
    if (!inRoots(F->getLocation())) return;
    Object o;
    o["id"] = id(F); o["n"] = bareName(F); o["q"] = qname(F); o["fl"] = file(F->getLocation()); o["l"] = line(F->getLocation());
    o["el"] = line(F->getEndLoc());
    o["ret"] = type(F->getReturnType());
    o["ty"] = type(F->getType());
    bool dep = F->isDependentContext();
    o["dep"] = dep;
    o["inst"] = F->isTemplateInstantiation();
    o["inl"] = F->isInlined(); o["cx"] = F->isConstexpr(); 
    o["tmpl"] = F->getDescribedFunctionTemplate() != nullptr;
    o["imp"] = F->isImplicit(); o["dfd"] = F->isDefaulted();
    o["ext"] = F->isExternallyVisible();
    if (F->getStorageClass()==SC_Static) o["stat"]=1;
    if (auto *TA = F->getTemplateSpecializationArgs()) { std::string s; llvm::raw_string_ostream os(s); bool first=true; for (auto &A : TA->asArray()) { if(!first) os<<", "; first=false; A.print(PP, os, true);} os.flush(); o["ta"] = s; }
    if (auto *P = F->getTemplateInstantiationPattern()) o["pat"] = id(P);
    o["kind"] = (int)F->getTemplateSpecializationKind();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      record(M->getParent());
      o["cls"] = bareName(M->getParent()); o["ct"] = type(C.getRecordType(M->getParent())); o["cid"] = id(M->getParent());
      if (M->isConst()) o["cm"] = 1; if (M->isStatic()) o["st"] = 1; 
      if (M->isCopyAssignmentOperator()) o["ca"] = 1; if (M->isMoveAssignmentOperator()) o["ma"] = 1;
      o["acc"] = (int)M->getAccess();
    }
    Array ps; for (auto *P : F->parameters()) { Object po; po["d"] = id(P); po["n"] = P->getNameAsString(); po["t"] = type(P->getType());
      QualType T = P->getType(); if (T->isReferenceType()) { po["ref"] = T->isRValueReferenceType() ? 2 : 1; if (T.getNonReferenceType().isConstQualified()) po["cref"] = 1; } if (T->isPointerType()) { po["ptr"]=1; if (T->getPointeeType().isConstQualified()) po["cref"]=1; }
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) po["def"] = expr(P->getDefaultArg());
      ps.push_back(std::move(po)); }
    o["ps"] = std::move(ps);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = 1; 
      if (CD->isCopyConstructor()) o["cp"] = 1; if (CD->isMoveConstructor()) o["mv"] = 1;
      if (CD->isDefaultConstructor()) o["dc"] = 1; if (CD->isDelegatingConstructor()) o["deleg"] = 1;
      Array is;
      for (auto *I : CD->inits()) { Object io; 
        if (I->isAnyMemberInitializer()) { io["n"] = I->getAnyMember()->getNameAsString(); io["d"]=id(I->getAnyMember()); }
        else if (I->isDelegatingInitializer()) io["deleg"] = 1; else io["base"] = 1;
        io["w"] = I->isWritten(); io["e"] = expr(I->getInit()); io["l"]=line(I->getSourceLocation()); is.push_back(std::move(io)); }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = 1;
    const Stmt *B = F->getBody();
    o["b"] = stmt(B);
    Funcs.push_back(std::move(o));
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody() && inRoots(F->getLocation())) emit(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition()) record(R); return true; }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && inRoots(V->getLocation())) {
      Object o; o["n"] = bareName(V); o["fl"] = file(V->getLocation()); o["l"] = line(V->getLocation()); o["t"] = type(V->getType());
      o["inl"] = V->isInline(); o["cx"] = V->isConstexpr(); o["const"] = V->getType().isConstQualified();
      o["link"] = (int)V->getFormalLinkage(); o["def"] = (int)V->isThisDeclarationADefinition(); 
      o["mem"] = V->isStaticDataMember(); o["tmpl"] = V->getTemplateSpecializationKind() != TSK_Undeclared || V->getDescribedVarTemplate() != nullptr || V->getDeclContext()->isDependentContext();
      o["d"]=id(V);
      Globals.push_back(std::move(o));
    }
    return true;
  }
  void finish() {
    while (!Work.empty()) { auto *F = Work.back(); Work.pop_back(); emit(F); }
  }
};

class Consumer : public ASTConsumer {
  CompilerInstance &CI;
public:
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (Ctx.getDiagnostics().hasUnrecoverableErrorOccurred() && !AllowErrors) { HadError = true; return; }
    if (Ctx.getDiagnostics().hasErrorOccurred() && !AllowErrors) { HadError = true; return; }
    Exporter X(Ctx);
    X.TraverseDecl(Ctx.getTranslationUnitDecl());
    X.finish();
    Object o;
    Array t; for (auto &s : X.TypeList) t.push_back(s);
    Array f; for (auto &s : X.FileList) f.push_back(s);
    o["types"] = std::move(t); o["files"] = std::move(f);
    o["funcs"] = std::move(X.Funcs); o["recs"] = std::move(X.Recs); o["globals"] = std::move(X.Globals);
    // every file read by the preprocessor under the roots
    Array inc;
    auto &SM = Ctx.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      std::string n = it->first.getName().str();
      for (auto &r : Roots) if (StringRef(n).starts_with(r)) { inc.push_back(n); break; }
    }
    o["included"] = std::move(inc);
    std::error_code ec; llvm::raw_fd_ostream os(OutPath, ec);
    if (ec) { llvm::errs() << "cannot write " << OutPath << "\n"; HadError = true; return; }
    os << Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};

int main(int argc, const char **argv) {
  // batsx OUT.json SRC root1,root2 -- clang args
  if (argc < 5) { llvm::errs() << "usage: batsx OUT SRC ROOTS -- args\n"; return 2; }
  OutPath = argv[1];
  std::string src = argv[2];
  if (getenv("BATSX_ALLOW_ERRORS")) AllowErrors = true;
  std::string roots = argv[3];
  size_t p = 0; while (p <= roots.size()) { size_t q = roots.find(',', p); if (q == std::string::npos) q = roots.size(); Roots.push_back(roots.substr(p, q - p)); p = q + 1; }
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {src});
  int r = T.run(tooling::newFrontendActionFactory<Action>().get());
  return AllowErrors ? (HadError ? 1 : 0) : ((r || HadError) ? 1 : 0);
}
