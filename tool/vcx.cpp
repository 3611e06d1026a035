// vcx: clang plugin that prints the typed AST of every function, record and
// global defined under a given source root as compact JSON (one document per TU).
// Nothing is rewritten: each node is what clang's Sema built for the real source.
// Dropped: parentheses, temporaries/cleanups, no-op and lvalue casts, attributes,
// comments, template *patterns* (only instantiated/plain functions are printed).
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
namespace json = llvm::json;

namespace {
struct Ser {
  ASTContext &C;
  PrintingPolicy PP;
  explicit Ser(ASTContext &c) : C(c), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.Bool = true;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  static std::string id(const void *p) {
    char b[32]; snprintf(b, sizeof b, "%p", p); return b;
  }
  int line(SourceLocation L) {
    return (int)C.getSourceManager().getPresumedLineNumber(C.getSourceManager().getExpansionLoc(L));
  }
  json::Array targs(const FunctionDecl *F) {
    json::Array A;
    if (auto *TA = F->getTemplateSpecializationArgs())
      for (auto &a : TA->asArray()) {
        if (a.getKind() == TemplateArgument::Integral) A.push_back((int64_t)a.getAsIntegral().getExtValue());
        else if (a.getKind() == TemplateArgument::Type) A.push_back(ty(a.getAsType()));
        else A.push_back(nullptr);
      }
    return A;
  }
  std::string sig(const FunctionDecl *F) {
    std::string s = F->getQualifiedNameAsString() + "(";
    bool first = true;
    for (auto *P : F->parameters()) { if (!first) s += ","; first = false; s += ty(P->getType()); }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += "const";
    return s;
  }
  void fn(json::Object &O, const FunctionDecl *F) {
    O["fn"] = F->getQualifiedNameAsString();
    O["name"] = F->getNameAsString();
    O["sig"] = sig(F);
    auto t = targs(F); if (!t.empty()) O["ta"] = std::move(t);
  }
  json::Value args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    json::Array A; for (auto *a : R) A.push_back(expr(a)); return A;
  }
  json::Object mk(const char *k, const Expr *E) {
    json::Object O; O["k"] = k; O["t"] = ty(E->getType()); O["l"] = line(E->getExprLoc());
    if (E->isLValue()) O["lv"] = 1;
    return O;
  }
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { return expr(X->getExpr()); }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    // integral constants (constexpr globals, sizeof, literals, ...)
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && !E->isLValue()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C) && !R.HasSideEffects) {
        auto O = mk("int", E);
        O["v"] = R.Val.getInt().isSigned() ? (int64_t)R.Val.getInt().getSExtValue() : (int64_t)R.Val.getInt().getZExtValue();
        if (E->getType()->isBooleanType()) O["k"] = "bool";
        if (E->getType()->isEnumeralType()) {
          O["k"] = "enum";
          for (auto *c : E->getType()->getAs<EnumType>()->getDecl()->enumerators())
            if (llvm::APSInt::isSameValue(c->getInitVal(), R.Val.getInt())) { O["en"] = c->getNameAsString(); break; }
        }
        return O;
      }
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating:
        case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_FloatingCast:
        case CK_PointerToBoolean: {
          auto O = mk("cast", E); O["ck"] = X->getCastKindName(); O["e"] = expr(X->getSubExpr());
          O["ft"] = ty(X->getSubExpr()->getType());
          return O; }
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BaseToDerived: case CK_Dynamic:
        case CK_BitCast: {
          auto O = mk("upcast", E); O["ck"] = X->getCastKindName(); O["e"] = expr(X->getSubExpr()); return O; }
        case CK_NullToPointer: { return mk("null", E); }
        case CK_ToVoid: return expr(X->getSubExpr());
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
        case CK_UserDefinedConversion: case CK_ConstructorConversion:
          return expr(X->getSubExpr());
        default: { auto O = mk("cast", E); O["ck"] = X->getCastKindName(); O["e"] = expr(X->getSubExpr()); return O; }
      }
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      auto O = mk("float", E);
      llvm::SmallString<32> s; X->getValue().toString(s, 0, 0, false);
      O["v"] = std::string(s.str());
      // the decimal text of the source, so that the constant is exact
      auto &SM = C.getSourceManager();
      auto L = SM.getSpellingLoc(X->getBeginLoc());
      bool inv = false;
      const char *p = SM.getCharacterData(L, &inv);
      if (!inv) { unsigned n = Lexer::MeasureTokenLength(L, SM, C.getLangOpts()); O["src"] = std::string(p, n); }
      return O;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      auto O = mk("str", E);
      O["v"] = X->isOrdinary() && json::isUTF8(X->getString()) ? X->getString().str() : std::string("?");
      return O;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { auto O = mk("int", E); O["v"] = (int64_t)X->getValue(); return O; }
    if (isa<CXXNullPtrLiteralExpr>(E)) return mk("null", E);
    if (isa<CXXThisExpr>(E)) return mk("this", E);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto O = mk("ref", E);
      auto *D = X->getDecl();
      O["name"] = D->getNameAsString(); O["q"] = D->getQualifiedNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["k"] = "fref"; fn(O, F); }
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        O["id"] = id(V->getCanonicalDecl());
        if (V->hasGlobalStorage()) O["glob"] = 1;
        if (V->isStaticLocal()) O["slocal"] = 1;
      } else if (isa<BindingDecl>(D)) { O["id"] = id(D->getCanonicalDecl()); O["binding"] = 1; }
      return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto O = mk("mem", E);
      auto *D = X->getMemberDecl();
      O["name"] = D->getNameAsString(); O["q"] = D->getQualifiedNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D)) { O["k"] = "ref"; O["id"] = id(V->getCanonicalDecl()); O["glob"] = 1; return O; }
      O["arrow"] = X->isArrow();
      O["e"] = expr(X->getBase());
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto O = mk("op", E);
      O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = dyn_cast_or_null<FunctionDecl>(X->getCalleeDecl())) { fn(O, F); O["method"] = isa<CXXMethodDecl>(F); }
      O["a"] = args(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto O = mk("mcall", E);
      if (auto *M = X->getMethodDecl()) { fn(O, M); O["cls"] = M->getParent()->getQualifiedNameAsString();
        if (M->isVirtual()) O["virt"] = 1;
        if (isa<CXXConversionDecl>(M)) O["conv"] = 1; }
      O["o"] = expr(X->getImplicitObjectArgument());
      O["ot"] = ty(X->getImplicitObjectArgument()->getType());
      O["a"] = args(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto O = mk("call", E);
      if (auto *F = X->getDirectCallee()) {
        fn(O, F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) O["cls"] = ty(QualType(M->getParent()->getTypeForDecl(), 0));
      }
      else O["ce"] = expr(X->getCallee());
      O["a"] = args(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto O = mk("new", E);
      auto *D = X->getConstructor();
      O["copy"] = D->isCopyOrMoveConstructor();
      O["sig"] = sig(D);
      O["cls"] = D->getParent()->getQualifiedNameAsString();
      if (X->isListInitialization()) O["list"] = 1;
      if (X->requiresZeroInitialization()) O["zero"] = 1;
      if (D->isDefaultConstructor()) O["def"] = 1;
      json::Array A; for (auto *a : X->arguments()) A.push_back(expr(a));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return mk("inhctor", X);
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      auto O = mk("un", E); O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
      O["post"] = X->isPostfix(); O["e"] = expr(X->getSubExpr()); return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      auto O = mk("cassign", E); O["op"] = X->getOpcodeStr(); O["x"] = expr(X->getLHS()); O["y"] = expr(X->getRHS());
      O["ct"] = ty(X->getComputationResultType());
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      auto O = mk(X->isAssignmentOp() ? "assign" : "bin", E);
      O["op"] = X->getOpcodeStr(); O["x"] = expr(X->getLHS()); O["y"] = expr(X->getRHS());
      return O;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      auto O = mk("cond", E); O["c"] = expr(X->getCond()); O["x"] = expr(X->getTrueExpr()); O["y"] = expr(X->getFalseExpr()); return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      auto O = mk("idx", E); O["x"] = expr(X->getBase()); O["y"] = expr(X->getIdx()); return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      auto O = mk("ilist", E); json::Array A; for (auto *a : X->inits()) A.push_back(expr(a)); O["a"] = std::move(A); return O;
    }
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) return mk("zinit", X);
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) return mk("zinit", X);
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { auto O = mk("heapnew", E); O["e"] = expr(X->getInitializer()); return O; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      auto O = mk("lambda", E);
      json::Array P; for (auto *p : X->getCallOperator()->parameters()) P.push_back(var(p));
      O["ps"] = std::move(P); O["b"] = stmt(X->getBody());
      json::Array cs;
      for (auto &c : X->captures()) { json::Object co; co["ref"] = c.getCaptureKind() == LCK_ByRef; if (c.capturesVariable()) co["id"] = id(c.getCapturedVar()->getCanonicalDecl()); cs.push_back(std::move(co)); }
      O["cs"] = std::move(cs);
      return O;
    }
    auto O = mk("?", E); O["cls"] = E->getStmtClassName(); return O;
  }
  json::Value var(const VarDecl *V) {
    json::Object O; O["id"] = id(V->getCanonicalDecl()); O["name"] = V->getNameAsString();
    O["t"] = ty(V->getType()); O["l"] = line(V->getLocation());
    if (V->isStaticLocal()) O["static"] = 1;
    if (V->getType()->isReferenceType()) O["isref"] = 1;
    if (V->getInit()) O["init"] = expr(V->getInit());
    return O;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { json::Object O; O["k"] = "expr"; O["e"] = expr(E); O["l"] = line(E->getExprLoc()); return O; }
    json::Object O; O["l"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "block"; json::Array A; for (auto *s : X->body()) A.push_back(stmt(s)); O["b"] = std::move(A); return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl"; json::Array A;
      for (auto *d : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) A.push_back(var(V));
      }
      O["v"] = std::move(A); return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if"; if (X->getInit()) O["i"] = stmt(X->getInit());
      if (auto *cv = X->getConditionVariable()) O["cv"] = var(cv);
      O["c"] = expr(X->getCond()); O["x"] = stmt(X->getThen()); O["y"] = stmt(X->getElse()); return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "for"; O["i"] = stmt(X->getInit()); O["c"] = expr(X->getCond()); O["n"] = expr(X->getInc()); O["b"] = stmt(X->getBody()); return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { O["k"] = "while"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<DoStmt>(S)) { O["k"] = "do"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rfor"; O["r"] = expr(X->getRangeInit()); O["v"] = var(X->getLoopVariable());
      O["rt"] = ty(X->getRangeInit()->getType()); O["b"] = stmt(X->getBody()); return O;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "ret"; O["e"] = X->getRetValue() ? expr(X->getRetValue()) : json::Value(nullptr); return O; }
    if (isa<BreakStmt>(S)) { O["k"] = "break"; return O; }
    if (isa<ContinueStmt>(S)) { O["k"] = "continue"; return O; }
    if (isa<NullStmt>(S)) { O["k"] = "nop"; return O; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { O["k"] = "switch"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { O["k"] = "case"; O["v"] = expr(X->getLHS()); O["b"] = stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "default"; O["b"] = stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    O["k"] = "?"; O["cls"] = S->getStmtClassName(); return O;
  }
  json::Value function(const FunctionDecl *F) {
    json::Object O; fn(O, F);
    O["file"] = C.getSourceManager().getPresumedLoc(F->getLocation()).getFilename();
    O["l"] = line(F->getLocation());
    O["end"] = line(F->getEndLoc());
    O["rt"] = ty(F->getReturnType());
    if (F->getReturnType()->isReferenceType()) O["retref"] = 1;
    json::Array P; for (auto *p : F->parameters()) P.push_back(var(p));
    O["ps"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = M->getParent()->getQualifiedNameAsString();
      if (M->isStatic()) O["static"] = 1;
      if (M->isVirtual()) O["virt"] = 1;
      if (M->isConst()) O["const"] = 1;
    }
    if (auto *D = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = 1;
      json::Array I;
      for (auto *i : D->inits()) {
        json::Object o;
        if (i->isAnyMemberInitializer()) o["m"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) o["base"] = ty(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) o["deleg"] = 1;
        o["e"] = expr(i->getInit());
        I.push_back(std::move(o));
      }
      O["inits"] = std::move(I);
    }
    O["b"] = stmt(F->getBody());
    return O;
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  ASTContext &C; Ser S; std::string root;
  json::Array F, R, G;
  Visitor(ASTContext &c, std::string r) : C(c), S(c), root(std::move(r)) {}
  bool shouldVisitImplicitCode() const { return false; }
  bool in(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto P = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(L));
    if (P.isInvalid()) return false;
    return llvm::StringRef(P.getFilename()).starts_with(root);
  }
  bool TraverseDecl(Decl *D) {
    if (D && !isa<TranslationUnitDecl>(D) && !isa<NamespaceDecl>(D) && !isa<LinkageSpecDecl>(D) && !in(D->getLocation())) return true;
    return RecursiveASTVisitor::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl *D) {
    if (D->isThisDeclarationADefinition() && D->hasBody() && !D->isDependentContext() && in(D->getLocation())) {
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) if (M->getParent()->isLambda()) return true;
      F.push_back(S.function(D));
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *D) {
    if (!D->isThisDeclarationADefinition() || D->isDependentContext() || D->isLambda() || !in(D->getLocation())) return true;
    json::Object O; O["name"] = D->getQualifiedNameAsString();
    O["t"] = S.ty(QualType(D->getTypeForDecl(), 0));
    json::Array B; for (auto &b : D->bases()) B.push_back(S.ty(b.getType()));
    O["bases"] = std::move(B);
    json::Array A;
    for (auto *f : D->fields()) {
      json::Object o; o["name"] = f->getNameAsString(); o["t"] = S.ty(f->getType());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) o["init"] = S.expr(f->getInClassInitializer());
      A.push_back(std::move(o));
    }
    O["fields"] = std::move(A);
    R.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (!D->hasGlobalStorage() || D->isStaticLocal() || !in(D->getLocation())) return true;
    auto *X = D; if (auto *Def = D->getDefinition()) X = Def;
    json::Value v = S.var(X);
    (*v.getAsObject())["q"] = D->getQualifiedNameAsString();
    G.push_back(std::move(v));
    return true;
  }
};

struct Consumer : ASTConsumer {
  std::string root, out;
  Consumer(std::string r, std::string o) : root(std::move(r)), out(std::move(o)) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Visitor V(C, root);
    V.TraverseDecl(C.getTranslationUnitDecl());
    json::Object O; O["functions"] = std::move(V.F); O["records"] = std::move(V.R); O["globals"] = std::move(V.G);
    std::error_code ec; llvm::raw_fd_ostream os(out, ec);
    os << json::Value(std::move(O)) << "\n";
  }
};
struct Action : PluginASTAction {
  std::string root, out;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>(root, out);
  }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &a) override {
    for (size_t i = 0; i + 1 < a.size(); i += 2) { if (a[i] == "root") root = a[i + 1]; if (a[i] == "out") out = a[i + 1]; }
    return true;
  }
  ActionType getActionType() override { return ReplaceAction; }
};
}
static FrontendPluginRegistry::Add<Action> X("vcx", "print typed AST as JSON");
