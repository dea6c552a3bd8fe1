// extract: serialise the type-checked program of /repo (every function, method,
// constructor, lambda, record, enum and namespace-scope variable whose location is inside the
// repository) to a compact JSON tree.  Template *patterns* are emitted, so coverage does not
// depend on what some translation unit happens to instantiate.
//
// usage: extract <repo-root> <out.json> <main-file> -- <clang args...>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <unordered_map>
using namespace clang;
namespace json = llvm::json;

static std::string gRoot, gOut;
struct Blank { std::string file; unsigned off; };
static std::vector<Blank> gBlanks;
static std::vector<std::string> gErrors;

static std::string relpath(llvm::StringRef p) {
  llvm::SmallString<256> abs(p);
  llvm::sys::fs::make_absolute(abs);
  llvm::sys::path::remove_dots(abs, true);
  llvm::StringRef s(abs);
  if (s.starts_with(gRoot)) { s = s.drop_front(gRoot.size()); while (s.starts_with("/")) s = s.drop_front(1); return s.str(); }
  return "";
}

class Diag : public DiagnosticConsumer {
public:
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override {
    if (L < DiagnosticsEngine::Error) return;
    llvm::SmallString<256> m; I.FormatDiagnostic(m);
    std::string loc;
    if (I.hasSourceManager() && I.getLocation().isValid()) {
      auto &SM = I.getSourceManager();
      auto l = SM.getExpansionLoc(I.getLocation());
      std::string f = SM.getFilename(l).str();
      loc = f + ":" + std::to_string(SM.getExpansionLineNumber(l));
      llvm::StringRef ms(m);
      if (ms.starts_with("constexpr function") && ms.contains("not a literal type") && !relpath(f).empty()) {
        // blank the nearest preceding 'constexpr' keyword of this declaration
        llvm::StringRef buf = SM.getBufferData(SM.getFileID(l));
        unsigned off = SM.getFileOffset(l);
        size_t p = buf.substr(0, std::min<size_t>(off + 9, buf.size())).rfind("constexpr");
        if (p != llvm::StringRef::npos && off - p < 600) { gBlanks.push_back({f, (unsigned)p}); return; }
      }
    }
    gErrors.push_back(loc + ": " + m.str().str());
  }
};

class X {
public:
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::unordered_map<const Decl *, int> ids; int nextId = 1;
  std::map<std::string, int> types; std::vector<std::string> typeList;
  explicit X(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true; PP.SuppressUnwrittenScope = true;
  }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it != ids.end()) return it->second; return ids[D] = nextId++; }
  int ty(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getAsString(PP);
    auto it = types.find(s); if (it != types.end()) return it->second;
    int n = (int)typeList.size(); typeList.push_back(s); types[s] = n; return n;
  }
  std::string fileOf(SourceLocation L) { if (L.isInvalid()) return ""; L = SM.getExpansionLoc(L); return relpath(SM.getFilename(L)); }
  unsigned line(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L); }
  unsigned col(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionColumnNumber(L); }
  std::string text(SourceRange R) {
    return Lexer::getSourceText(CharSourceRange::getTokenRange(R), SM, C.getLangOpts()).str();
  }
  std::string key(const Decl *D) {
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      if (auto *P = F->getTemplateInstantiationPattern()) D = P;
      else if (auto *FT = F->getPrimaryTemplate()) D = FT->getTemplatedDecl();
      F = cast<FunctionDecl>(D);
      const FunctionDecl *Def = nullptr;
      if (F->isDefined(Def) && Def) D = Def;
    } else if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) return key(FT->getTemplatedDecl());
    std::string f = fileOf(D->getLocation());
    if (f.empty()) return "";
    return f + ":" + std::to_string(line(D->getLocation())) + ":" + std::to_string(col(D->getLocation()));
  }
  json::Object node(const char *k, const Stmt *S) { json::Object o; o["k"] = k; o["l"] = (int64_t)line(S->getBeginLoc()); return o; }
  void setTy(json::Object &o, const Expr *E) {
    QualType T = E->getType();
    if (!T.isNull() && !T->isDependentType() && !isa<OverloadExpr>(E)) o["t"] = ty(T.getCanonicalType());
  }
  json::Value args(llvm::ArrayRef<const Expr *> A) { json::Array r; for (auto *e : A) { if (e && isa<CXXDefaultArgExpr>(e)) continue; r.push_back(E(e)); } return std::move(r); }
  template <class It> json::Value argsR(It R) { json::Array r; for (const Expr *e : R) { if (e && isa<CXXDefaultArgExpr>(e)) continue; r.push_back(E(e)); } return std::move(r); }
  std::string tmplArgs(const ASTTemplateArgumentListInfo *L) { return ""; }
  json::Array targs(llvm::ArrayRef<TemplateArgumentLoc> A) {
    json::Array r;
    for (auto &a : A) {
      std::string s; llvm::raw_string_ostream os(s); a.getArgument().print(PP, os, true); os.flush();
      r.push_back(s);
    }
    return r;
  }
  std::string opName(OverloadedOperatorKind K) { return getOperatorSpelling(K); }

  json::Value param(const ParmVarDecl *P) {
    json::Object o; o["id"] = id(P); o["n"] = P->getNameAsString(); o["t"] = ty(P->getType()); o["l"] = (int64_t)line(P->getLocation());
    o["ct"] = ty(P->getType().getCanonicalType());
    if (P->isParameterPack()) o["pack"] = true;
    if (P->hasInit() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg() && P->getDefaultArg()) o["def"] = E(P->getDefaultArg());
    else if (P->hasUninstantiatedDefaultArg()) o["def"] = E(P->getUninstantiatedDefaultArg());
    return std::move(o);
  }
  json::Value var(const VarDecl *V) {
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Object o; o["k"] = "decomp"; o["l"] = (int64_t)line(V->getLocation()); o["t"] = ty(V->getType()); o["id"] = id(V);
      json::Array b; for (auto *B : D->bindings()) { json::Object x; x["id"] = id(B); x["n"] = B->getNameAsString(); b.push_back(std::move(x)); }
      o["b"] = std::move(b); if (V->getInit()) o["init"] = E(V->getInit());
      return std::move(o);
    }
    json::Object o; o["k"] = "var"; o["id"] = id(V); o["n"] = V->getNameAsString(); o["l"] = (int64_t)line(V->getLocation());
    o["t"] = ty(V->getType()); o["ct"] = ty(V->getType().getCanonicalType());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (V->isConstexpr()) o["constexpr"] = true;
    if (V->getType().getNonReferenceType().isConstQualified()) o["const"] = true;
    if (V->getInit()) {
      o["init"] = E(V->getInit());
      o["is"] = V->getInitStyle() == VarDecl::CInit ? "c" : (V->getInitStyle() == VarDecl::CallInit ? "call" : "list");
    }
    return std::move(o);
  }

  json::Value ref(const Expr *S, const ValueDecl *D, const std::string &targ = "") {
    auto o = node("ref", S);
    o["n"] = D->getNameAsString(); o["id"] = id(D);
    const char *dk = "other";
    if (isa<ParmVarDecl>(D)) dk = "parm"; else if (auto *V = dyn_cast<VarDecl>(D)) dk = V->isLocalVarDecl() ? "var" : "gvar";
    else if (isa<FunctionDecl>(D)) dk = "func"; else if (isa<FieldDecl>(D)) dk = "field"; else if (isa<EnumConstantDecl>(D)) dk = "enum";
    else if (isa<BindingDecl>(D)) dk = "bind"; else if (isa<NonTypeTemplateParmDecl>(D)) dk = "nttp";
    o["dk"] = dk;
    if (isa<FunctionDecl>(D) || isa<EnumConstantDecl>(D) || !strcmp(dk, "gvar")) { o["q"] = D->getQualifiedNameAsString(); auto k = key(D); if (!k.empty()) o["fk"] = k; }
    setTy(o, S);
    return std::move(o);
  }

  json::Value lambda(const LambdaExpr *L) {
    auto o = node("lambda", L);
    json::Array ps; if (auto *M = L->getCallOperator()) for (auto *P : M->parameters()) ps.push_back(param(P));
    o["params"] = std::move(ps);
    o["def"] = L->getCaptureDefault() == LCD_ByCopy ? "=" : (L->getCaptureDefault() == LCD_ByRef ? "&" : "");
    json::Array cs; auto ii = L->capture_init_begin();
    for (auto &c : L->captures()) {
      json::Object x; x["implicit"] = c.isImplicit();
      if (c.capturesThis()) { x["n"] = "this"; x["ref"] = c.getCaptureKind() != LCK_StarThis; }
      else if (c.capturesVariable()) { auto *V = c.getCapturedVar(); x["n"] = V->getNameAsString(); x["id"] = id(V); x["ref"] = c.getCaptureKind() == LCK_ByRef;
        if (auto *VV = dyn_cast<VarDecl>(V)) if (VV->isInitCapture() && VV->getInit()) x["init"] = E(VV->getInit()); }
      cs.push_back(std::move(x)); ++ii;
    }
    o["caps"] = std::move(cs);
    o["mutable"] = L->isMutable();
    o["end"] = (int64_t)line(L->getEndLoc());
    o["body"] = S(L->getBody());
    return std::move(o);
  }

  const Expr *strip(const Expr *e) {
    while (e) {
      if (auto *x = dyn_cast<ImplicitCastExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
        if (!isa<CXXTemporaryObjectExpr>(x) && x->getNumArgs() == 1 && !x->isListInitialization() && x->getConstructor()->isCopyOrMoveConstructor()) e = x->getArg(0);
        else if (!isa<CXXTemporaryObjectExpr>(x) && x->getNumArgs() >= 1 && x->getConstructor()->isConvertingConstructor(false) && !x->isListInitialization() && (x->getNumArgs()==1 || isa<CXXDefaultArgExpr>(x->getArg(1))) && x->getParenOrBraceRange().isInvalid()) {
          // implicit converting construction: keep the argument, mark nothing
          e = x->getArg(0);
        } else break;
      } else break;
    }
    return e;
  }

  json::Value E(const Expr *e0) {
    const Expr *e = strip(e0);
    if (!e) return nullptr;
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      auto v = ref(e, x->getDecl());
      if (x->hasExplicitTemplateArgs()) (*v.getAsObject())["ta"] = targs(x->template_arguments());
      return v;
    }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) { auto o = node("int", e); llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType()); o["v"] = s.str().str(); setTy(o, e); return std::move(o); }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) { auto o = node("flt", e); llvm::SmallString<32> s; x->getValue().toString(s); o["v"] = s.str().str(); setTy(o, e); return std::move(o); }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { auto o = node("bool", e); o["v"] = x->getValue(); return std::move(o); }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) { auto o = node("chr", e); o["v"] = (int64_t)x->getValue(); return std::move(o); }
    if (auto *x = dyn_cast<StringLiteral>(e)) { auto o = node("str", e); if (x->isOrdinary() || x->isUTF8()) { std::string s = x->getString().str(); o["v"] = json::isUTF8(s) ? s : json::fixUTF8(s);} else o["v"] = ""; return std::move(o); }
    if (auto *x = dyn_cast<UserDefinedLiteral>(e)) { auto o = node("udl", e); json::Array a; for (auto *q : x->arguments()) a.push_back(E(q)); o["a"] = std::move(a); o["n"] = x->getUDSuffix() ? x->getUDSuffix()->getName().str() : ""; return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { auto o = node("null", e); return std::move(o); }
    if (isa<CXXThisExpr>(e)) { auto o = node("this", e); return std::move(o); }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      auto o = node("mem", e); o["b"] = E(x->getBase()); o["n"] = x->getMemberDecl()->getNameAsString(); o["arrow"] = x->isArrow(); o["id"] = id(x->getMemberDecl());
      o["dk"] = isa<FieldDecl>(x->getMemberDecl()) ? "field" : "func";
      if (isa<FunctionDecl>(x->getMemberDecl())) { o["q"] = x->getMemberDecl()->getQualifiedNameAsString(); auto k = key(x->getMemberDecl()); if (!k.empty()) o["fk"] = k; if (auto *MD = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) o["mconst"] = MD->isConst(); }
      setTy(o, e); return std::move(o);
    }
    if (auto *x = dyn_cast<CXXDependentScopeMemberExpr>(e)) {
      auto o = node("mem", e); if (x->isImplicitAccess()) { json::Object t; t["k"] = "this"; t["l"] = (int64_t)line(e->getBeginLoc()); o["b"] = std::move(t); } else o["b"] = E(x->getBase());
      o["n"] = x->getMember().getAsString(); o["arrow"] = x->isArrow(); o["dk"] = "dep";
      if (x->hasExplicitTemplateArgs()) o["ta"] = targs(x->template_arguments());
      return std::move(o);
    }
    if (auto *x = dyn_cast<UnresolvedMemberExpr>(e)) {
      auto o = node("mem", e); if (x->isImplicitAccess()) { json::Object t; t["k"] = "this"; o["b"] = std::move(t); } else o["b"] = E(x->getBase());
      o["n"] = x->getMemberName().getAsString(); o["arrow"] = x->isArrow(); o["dk"] = "ovl";
      json::Array c; for (auto *D : x->decls()) { auto k = key(D->getUnderlyingDecl()); if (!k.empty()) c.push_back(k); } o["cands"] = std::move(c);
      if (x->hasExplicitTemplateArgs()) o["ta"] = targs(x->template_arguments());
      return std::move(o);
    }
    if (auto *x = dyn_cast<UnresolvedLookupExpr>(e)) {
      auto o = node("ref", e); o["n"] = x->getName().getAsString(); o["dk"] = "ovl"; std::string q;
      if (x->getQualifier()) { llvm::raw_string_ostream os(q); x->getQualifier()->print(os, PP); os.flush(); }
      o["q"] = q + x->getName().getAsString();
      json::Array c; for (auto *D : x->decls()) { auto k = key(D->getUnderlyingDecl()); if (!k.empty()) c.push_back(k); else if (q.empty()) { o["q"] = D->getUnderlyingDecl()->getQualifiedNameAsString(); } } o["cands"] = std::move(c);
      if (x->hasExplicitTemplateArgs()) o["ta"] = targs(x->template_arguments());
      return std::move(o);
    }
    if (auto *x = dyn_cast<DependentScopeDeclRefExpr>(e)) {
      auto o = node("ref", e); o["n"] = x->getDeclName().getAsString(); o["dk"] = "dep"; std::string q; llvm::raw_string_ostream os(q); if (x->getQualifier()) x->getQualifier()->print(os, PP); os.flush(); o["q"] = q + x->getDeclName().getAsString();
      if (x->hasExplicitTemplateArgs()) o["ta"] = targs(x->template_arguments());
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto K = x->getOperator();
      if (K == OO_Subscript && x->getNumArgs() == 2) { auto o = node("idx", e); o["b"] = E(x->getArg(0)); o["i"] = E(x->getArg(1)); o["ov"] = true; setTy(o, e); return std::move(o); }
      if (K == OO_Call) { auto o = node("call", e); o["f"] = E(x->getArg(0)); json::Array a; for (unsigned i = 1; i < x->getNumArgs(); ++i) if (!isa<CXXDefaultArgExpr>(x->getArg(i))) a.push_back(E(x->getArg(i))); o["a"] = std::move(a); setTy(o, e);
        if (auto *cd = x->getDirectCallee()) { auto k = key(cd); if (!k.empty()) o["fk"] = k; } return std::move(o); }
      if (K == OO_Arrow) { auto o = node("un", e); o["op"] = "->"; o["e"] = E(x->getArg(0)); setTy(o, e); return std::move(o); }
      std::string fk; if (auto *cd = x->getDirectCallee()) fk = key(cd);
      if (x->getNumArgs() == 1) { auto o = node("un", e); o["op"] = opName(K); o["e"] = E(x->getArg(0)); o["ov"] = true; setTy(o, e); if (!fk.empty()) o["fk"] = fk; return std::move(o); }
      if (x->getNumArgs() == 2 && (K == OO_PlusPlus || K == OO_MinusMinus)) { auto o = node("un", e); o["op"] = opName(K); o["post"] = true; o["e"] = E(x->getArg(0)); o["ov"] = true; setTy(o, e); return std::move(o); }
      auto o = node("bin", e); o["op"] = opName(K); o["lh"] = E(x->getArg(0)); o["rh"] = x->getNumArgs() > 1 ? E(x->getArg(1)) : json::Value(nullptr); o["ov"] = true; setTy(o, e); if (!fk.empty()) o["fk"] = fk; return std::move(o);
    }
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { auto d = x->getDecomposedForm(); auto o = node("bin", e); o["op"] = BinaryOperator::getOpcodeStr(d.Opcode).str(); o["lh"] = E(d.LHS); o["rh"] = E(d.RHS); o["ov"] = true; setTy(o, e); return std::move(o); }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      auto o = node("call", e); o["f"] = E(x->getCallee()); json::Array a; for (auto *q : x->arguments()) if (!isa<CXXDefaultArgExpr>(q)) a.push_back(E(q)); o["a"] = std::move(a); setTy(o, e);
      if (auto *cd = x->getDirectCallee()) { auto k = key(cd); if (!k.empty()) o["fk"] = k; }
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXUnresolvedConstructExpr>(e)) { auto o = node("ctor", e); o["tt"] = ty(x->getTypeAsWritten()); o["a"] = argsR(x->arguments()); o["list"] = x->isListInitialization(); return std::move(o); }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) { auto o = node("ctor", e); o["tt"] = ty(x->getType()); o["a"] = argsR(x->arguments()); o["list"] = x->isListInitialization(); setTy(o, e); auto k = key(x->getConstructor()); if (!k.empty()) o["fk"] = k; return std::move(o); }
    if (auto *x = dyn_cast<CXXFunctionalCastExpr>(e)) { 
      const Expr *s = strip(x->getSubExpr());
      if (auto *cc = dyn_cast_or_null<CXXConstructExpr>(s)) { (void)cc; return E(s); }
      auto o = node("cast", e); o["ck"] = "func"; o["tt"] = ty(x->getTypeAsWritten()); o["e"] = E(x->getSubExpr()); setTy(o, e); return std::move(o); }
    if (auto *x = dyn_cast<ExplicitCastExpr>(e)) { auto o = node("cast", e); o["ck"] = isa<CXXStaticCastExpr>(e) ? "static" : isa<CXXConstCastExpr>(e) ? "const" : isa<CXXReinterpretCastExpr>(e) ? "reinterpret" : isa<CXXDynamicCastExpr>(e) ? "dynamic" : "c"; o["tt"] = ty(x->getTypeAsWritten()); o["ctt"] = ty(x->getTypeAsWritten().getCanonicalType()); o["e"] = E(x->getSubExpr()); setTy(o, e); return std::move(o); }
    if (auto *x = dyn_cast<BinaryOperator>(e)) { auto o = node("bin", e); o["op"] = x->getOpcodeStr().str(); o["lh"] = E(x->getLHS()); o["rh"] = E(x->getRHS()); setTy(o, e); return std::move(o); }
    if (auto *x = dyn_cast<UnaryOperator>(e)) { auto o = node("un", e); o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) o["post"] = true; o["e"] = E(x->getSubExpr()); setTy(o, e); return std::move(o); }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) { auto o = node("cond", e); o["c"] = E(x->getCond()); o["x"] = E(x->getTrueExpr()); o["y"] = E(x->getFalseExpr()); setTy(o, e); return std::move(o); }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { auto o = node("idx", e); // in dependent code getBase() guesses from incomplete types: only i[a] on builtin integers has the base on the right
        bool sw = x->getLHS()->getType()->isIntegerType() && !x->getRHS()->getType()->isIntegerType();
        o["b"] = E(sw ? x->getRHS() : x->getLHS()); o["i"] = E(sw ? x->getLHS() : x->getRHS()); setTy(o, e); return std::move(o); }
    if (auto *x = dyn_cast<LambdaExpr>(e)) return lambda(x);
    if (auto *x = dyn_cast<InitListExpr>(e)) { auto o = node("init", e); json::Array a; for (auto *q : x->inits()) a.push_back(E(q)); o["a"] = std::move(a); setTy(o, e); return std::move(o); }
    if (auto *x = dyn_cast<DesignatedInitExpr>(e)) { auto o = node("desig", e); o["e"] = E(x->getInit()); if (x->size() && x->getDesignator(0)->isFieldDesignator()) o["n"] = x->getDesignator(0)->getFieldName()->getName().str(); return std::move(o); }
    if (auto *x = dyn_cast<ParenListExpr>(e)) { auto o = node("plist", e); json::Array a; for (unsigned i = 0; i < x->getNumExprs(); ++i) a.push_back(E(x->getExpr(i))); o["a"] = std::move(a); return std::move(o); }
    if (auto *x = dyn_cast<CXXParenListInitExpr>(e)) { auto o = node("init", e); json::Array a; for (auto *q : x->getInitExprs()) a.push_back(E(q)); o["a"] = std::move(a); setTy(o, e); return std::move(o); }
    if (auto *x = dyn_cast<PackExpansionExpr>(e)) { auto o = node("pack", e); o["e"] = E(x->getPattern()); return std::move(o); }
    if (auto *x = dyn_cast<CXXFoldExpr>(e)) { auto o = node("fold", e); o["op"] = BinaryOperator::getOpcodeStr(x->getOperator()).str(); o["right"] = x->isRightFold(); o["lh"] = x->getLHS() ? E(x->getLHS()) : json::Value(nullptr); o["rh"] = x->getRHS() ? E(x->getRHS()) : json::Value(nullptr); return std::move(o); }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) { auto o = node("throw", e); o["e"] = x->getSubExpr() ? E(x->getSubExpr()) : json::Value(nullptr); if (x->getSubExpr()) o["tt"] = ty(x->getSubExpr()->getType()); return std::move(o); }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) { auto o = node("new", e); o["tt"] = ty(x->getAllocatedType()); o["arr"] = x->isArray(); if (auto n = x->getArraySize()) if (*n) o["n"] = E(*n); if (x->getInitializer()) o["e"] = E(x->getInitializer()); return std::move(o); }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { auto o = node("delete", e); o["e"] = E(x->getArgument()); o["arr"] = x->isArrayForm(); return std::move(o); }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { auto o = node("sizeof", e); o["s"] = text(e->getSourceRange()); if (x->isArgumentType()) o["tt"] = ty(x->getArgumentType()); else { o["e"] = E(x->getArgumentExpr()); o["tt"] = ty(x->getArgumentExpr()->getType()); } 
      if (!e->isValueDependent() && !e->isTypeDependent()) { Expr::EvalResult R; if (e->EvaluateAsInt(R, C)) o["v"] = (int64_t)R.Val.getInt().getExtValue(); }
      return std::move(o); }
    if (auto *x = dyn_cast<SizeOfPackExpr>(e)) { auto o = node("sizeofpack", e); o["n"] = x->getPack()->getNameAsString(); return std::move(o); }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { auto o = node("zero", e); o["tt"] = ty(e->getType()); return std::move(o); }
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) { return E(x->getExpr()); }
    if (auto *x = dyn_cast<RequiresExpr>(e)) { (void)x; auto o = node("requires", e); o["s"] = text(e->getSourceRange()); return std::move(o); }
    if (isa<TypeTraitExpr>(e) || isa<ConceptSpecializationExpr>(e) || isa<CXXNoexceptExpr>(e) || isa<ExpressionTraitExpr>(e)) { auto o = node("trait", e); o["s"] = text(e->getSourceRange()); return std::move(o); }
    if (auto *x = dyn_cast<StmtExpr>(e)) { auto o = node("stmtexpr", e); o["e"] = S(x->getSubStmt()); return std::move(o); }
    if (auto *x = dyn_cast<CXXTypeidExpr>(e)) { auto o = node("typeid", e); o["s"] = text(e->getSourceRange()); (void)x; return std::move(o); }
    if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) { return E(x->getCommonExpr()->getSourceExpr()); }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { return x->getSourceExpr() ? E(x->getSourceExpr()) : json::Value(nullptr); }
    if (auto *x = dyn_cast<RecoveryExpr>(e)) { auto o = node("recovery", e); json::Array a; for (auto *q : const_cast<RecoveryExpr *>(x)->subExpressions()) a.push_back(E(q)); o["a"] = std::move(a); o["s"] = text(e->getSourceRange()).substr(0, 200); return std::move(o); }
    auto o = node("unk", e); o["c"] = e->getStmtClassName(); o["s"] = text(e->getSourceRange()).substr(0, 200);
    json::Array a; for (auto *ch : e->children()) if (ch) a.push_back(S(ch)); o["a"] = std::move(a);
    return std::move(o);
  }

  json::Value S(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) return E(e);
    if (auto *x = dyn_cast<CompoundStmt>(s)) { auto o = node("block", s); json::Array a; for (auto *q : x->body()) a.push_back(S(q)); o["s"] = std::move(a); return std::move(o); }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      auto o = node("decl", s); json::Array a;
      for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      o["v"] = std::move(a); return std::move(o);
    }
    if (auto *x = dyn_cast<IfStmt>(s)) { auto o = node("if", s); if (x->getInit()) o["init"] = S(x->getInit()); if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable()); o["c"] = x->getCond() ? E(x->getCond()) : json::Value(nullptr); o["x"] = S(x->getThen()); o["y"] = S(x->getElse()); if (x->isConstexpr()) { o["cx"] = true; if (x->getCond()) o["cs"] = text(x->getCond()->getSourceRange()); } return std::move(o); }
    if (auto *x = dyn_cast<ForStmt>(s)) { auto o = node("for", s); o["init"] = S(x->getInit()); o["c"] = x->getCond() ? E(x->getCond()) : json::Value(nullptr); o["inc"] = x->getInc() ? E(x->getInc()) : json::Value(nullptr); o["body"] = S(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<WhileStmt>(s)) { auto o = node("while", s); o["c"] = E(x->getCond()); if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable()); o["body"] = S(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<DoStmt>(s)) { auto o = node("do", s); o["c"] = E(x->getCond()); o["body"] = S(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) { auto o = node("rfor", s); if (x->getInit()) o["init"] = S(x->getInit()); o["var"] = x->getLoopVariable() ? var(x->getLoopVariable()) : json::Value(nullptr); o["range"] = E(x->getRangeInit()); o["body"] = S(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<ReturnStmt>(s)) { auto o = node("return", s); o["e"] = x->getRetValue() ? E(x->getRetValue()) : json::Value(nullptr); return std::move(o); }
    if (isa<BreakStmt>(s)) { auto o = node("break", s); return std::move(o); }
    if (isa<ContinueStmt>(s)) { auto o = node("continue", s); return std::move(o); }
    if (isa<NullStmt>(s)) { auto o = node("nop", s); return std::move(o); }
    if (auto *x = dyn_cast<SwitchStmt>(s)) { auto o = node("switch", s); o["c"] = E(x->getCond()); o["body"] = S(x->getBody()); QualType T = x->getCond()->IgnoreImpCasts()->getType(); if (!T.isNull()) o["ct"] = ty(T.getCanonicalType()); o["allenum"] = x->isAllEnumCasesCovered(); return std::move(o); }
    if (auto *x = dyn_cast<CaseStmt>(s)) { auto o = node("case", s); o["e"] = E(x->getLHS()); o["s"] = S(x->getSubStmt()); return std::move(o); }
    if (auto *x = dyn_cast<DefaultStmt>(s)) { auto o = node("default", s); o["s"] = S(x->getSubStmt()); return std::move(o); }
    if (auto *x = dyn_cast<LabelStmt>(s)) { auto o = node("label", s); o["n"] = x->getName(); o["s"] = S(x->getSubStmt()); return std::move(o); }
    if (auto *x = dyn_cast<GotoStmt>(s)) { auto o = node("goto", s); o["n"] = x->getLabel()->getNameAsString(); return std::move(o); }
    if (auto *x = dyn_cast<AttributedStmt>(s)) { bool ft = false; for (auto *A : x->getAttrs()) if (isa<FallThroughAttr>(A)) ft = true; if (ft) { auto o = node("fallthrough", s); return std::move(o); } return S(x->getSubStmt()); }
    if (auto *x = dyn_cast<CXXTryStmt>(s)) { auto o = node("try", s); o["body"] = S(x->getTryBlock()); json::Array h; for (unsigned i = 0; i < x->getNumHandlers(); ++i) { auto *c = x->getHandler(i); json::Object q; q["l"] = (int64_t)line(c->getBeginLoc()); q["t"] = c->getExceptionDecl() ? ty(c->getCaughtType()) : -1; if (c->getExceptionDecl()) { q["id"] = id(c->getExceptionDecl()); q["n"] = c->getExceptionDecl()->getNameAsString(); } q["body"] = S(c->getHandlerBlock()); h.push_back(std::move(q)); } o["h"] = std::move(h); return std::move(o); }
    if (auto *x = dyn_cast<OMPExecutableDirective>(s)) {
      auto o = node("omp", s); o["d"] = getOpenMPDirectiveName(x->getDirectiveKind()).str();
      o["pragma"] = text(SourceRange(x->getBeginLoc(), x->getEndLoc()));
      json::Array cl;
      for (auto *c : x->clauses()) {
        json::Object q; q["c"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str(); json::Array v;
        if (c->isImplicit()) q["implicit"] = true;
        for (auto *ch : c->children()) if (ch) if (auto *ce = dyn_cast<Expr>(ch)) { auto *se = strip(ce); if (auto *dr = dyn_cast<DeclRefExpr>(se)) { json::Object z; z["n"] = dr->getDecl()->getNameAsString(); z["id"] = id(dr->getDecl()); v.push_back(std::move(z)); } else v.push_back(E(se)); }
        q["v"] = std::move(v); cl.push_back(std::move(q));
      }
      o["cl"] = std::move(cl);
      const Stmt *b = nullptr;
      if (x->hasAssociatedStmt()) { b = x->getRawStmt(); while (auto *cs = dyn_cast_or_null<CapturedStmt>(b)) b = cs->getCapturedStmt(); }
      o["body"] = S(b); return std::move(o);
    }
    if (auto *x = dyn_cast<OMPCanonicalLoop>(s)) return S(x->getLoopStmt());
    if (auto *x = dyn_cast<CapturedStmt>(s)) return S(x->getCapturedStmt());
    auto o = node("unk", s); o["c"] = s->getStmtClassName(); json::Array a; for (auto *ch : s->children()) if (ch) a.push_back(S(ch)); o["a"] = std::move(a); return std::move(o);
  }

  json::Array funcs, recs, enums, gvars;
  std::set<std::string> seen;
  void addFunc(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted() && !F->isDeleted() && !F->isPureVirtual()) { if (F->isDefined()) return; }
    if (F->isTemplateInstantiation()) return;
    std::string f = fileOf(F->getLocation()); if (f.empty()) return;
    std::string k = f + ":" + std::to_string(line(F->getLocation())) + ":" + std::to_string(col(F->getLocation()));
    if (!seen.insert(k).second) return;
    json::Object o; o["key"] = k; o["id"] = id(F); o["n"] = F->getNameAsString(); o["q"] = F->getQualifiedNameAsString(); o["file"] = f;
    o["l"] = (int64_t)line(F->getLocation()); o["begin"] = (int64_t)line(F->getBeginLoc()); o["end"] = (int64_t)line(F->getEndLoc());
    json::Array ps; for (auto *P : F->parameters()) ps.push_back(param(P)); o["params"] = std::move(ps);
    o["ret"] = ty(F->getReturnType());
    if (F->isConstexpr()) o["constexpr"] = true;
    if (F->isDeleted()) o["deleted"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    if (F->isNoReturn()) o["noreturn"] = true;
    { const auto *FPT = F->getType()->getAs<FunctionProtoType>(); if (FPT && FPT->hasNoexceptExceptionSpec()) o["noexcept"] = true; }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getNameAsString(); o["clsq"] = M->getParent()->getQualifiedNameAsString(); o["const"] = M->isConst(); o["static"] = M->isStatic();
      o["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected";
      if (M->isCopyAssignmentOperator()) o["spec"] = "copyassign"; if (M->isMoveAssignmentOperator()) o["spec"] = "moveassign";
      if (M->getParent()->isLambda()) return;
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["kind"] = "ctor"; if (K->isCopyConstructor()) o["spec"] = "copyctor"; if (K->isMoveConstructor()) o["spec"] = "movector";
      json::Array in;
      for (auto *I : K->inits()) { if (!I->isWritten()) continue; json::Object q; if (I->isMemberInitializer()) { q["n"] = I->getMember()->getNameAsString(); q["id"] = id(I->getMember()); } else if (I->isDelegatingInitializer()) q["deleg"] = true; else q["base"] = true; q["l"] = (int64_t)line(I->getSourceLocation()); q["e"] = I->getInit() ? E(I->getInit()) : json::Value(nullptr); in.push_back(std::move(q)); }
      o["inits"] = std::move(in);
    } else if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor";
    else if (isa<CXXConversionDecl>(F)) o["kind"] = "conv";
    else o["kind"] = isa<CXXMethodDecl>(F) ? "method" : "func";
    std::string req; json::Array tps;
    auto addTP = [&](const TemplateParameterList *L) {
      for (auto *P : *L) { json::Object q; q["n"] = P->getNameAsString(); q["pack"] = P->isParameterPack(); q["k"] = isa<TemplateTypeParmDecl>(P) ? "type" : isa<NonTypeTemplateParmDecl>(P) ? "nttp" : "tmpl"; q["s"] = text(P->getSourceRange());
        if (auto *N = dyn_cast<NonTypeTemplateParmDecl>(P)) { q["t"] = ty(N->getType()); if (N->hasDefaultArgument()) q["def"] = E(N->getDefaultArgument()); }
        if (auto *T = dyn_cast<TemplateTypeParmDecl>(P)) { if (T->hasDefaultArgument()) q["deft"] = T->getDefaultArgument().getAsString(PP); }
        tps.push_back(std::move(q)); }
      if (auto *R = L->getRequiresClause()) req += text(R->getSourceRange()) + " ";
    };
    if (auto *T = F->getDescribedFunctionTemplate()) addTP(T->getTemplateParameters());
    if (auto *R = F->getTrailingRequiresClause()) req += text(R->getSourceRange());
    o["tps"] = std::move(tps); o["req"] = req;
    if (F->doesThisDeclarationHaveABody()) o["body"] = S(F->getBody());
    funcs.push_back(std::move(o));
  }
  void addRec(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda()) return;
    if (isa<ClassTemplateSpecializationDecl>(R) && !isa<ClassTemplatePartialSpecializationDecl>(R) && cast<ClassTemplateSpecializationDecl>(R)->getSpecializationKind() != TSK_ExplicitSpecialization) return;
    if (R->getTemplateSpecializationKind() == TSK_ImplicitInstantiation) return;
    std::string f = fileOf(R->getLocation()); if (f.empty()) return;
    std::string k = "R" + f + ":" + std::to_string(line(R->getLocation())) + ":" + std::to_string(col(R->getLocation()));
    if (!seen.insert(k).second) return;
    json::Object o; o["n"] = R->getNameAsString(); o["q"] = R->getQualifiedNameAsString(); o["file"] = f; o["l"] = (int64_t)line(R->getLocation()); o["id"] = id(R);
    json::Array fs; for (auto *F : R->fields()) { json::Object q; q["n"] = F->getNameAsString(); q["id"] = id(F); q["t"] = ty(F->getType()); q["mutable"] = F->isMutable(); q["l"] = (int64_t)line(F->getLocation()); q["acc"] = F->getAccess() == AS_public ? "public" : "private"; if (F->hasInClassInitializer() && F->getInClassInitializer()) q["init"] = E(F->getInClassInitializer()); fs.push_back(std::move(q)); }
    o["fields"] = std::move(fs);
    json::Array bs; if (R->hasDefinition()) for (auto &b : R->bases()) bs.push_back(ty(b.getType())); o["bases"] = std::move(bs);
    json::Array svs; for (auto *D : R->decls()) if (auto *V = dyn_cast<VarDecl>(D)) { auto v = var(V); (*v.getAsObject())["smember"] = true; svs.push_back(std::move(v)); } o["statics"] = std::move(svs);
    recs.push_back(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  X &x; explicit V(X &x) : x(x) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { x.addFunc(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { x.addRec(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) {
    std::string f = x.fileOf(E->getLocation()); if (f.empty() || !E->isThisDeclarationADefinition()) return true;
    json::Object o; o["n"] = E->getNameAsString(); o["q"] = E->getQualifiedNameAsString(); o["file"] = f; o["l"] = (int64_t)x.line(E->getLocation());
    json::Array es; for (auto *c : E->enumerators()) es.push_back(c->getNameAsString()); o["e"] = std::move(es); x.enums.push_back(std::move(o)); return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (D->isLocalVarDecl() || isa<ParmVarDecl>(D) || isa<VarTemplateSpecializationDecl>(D)) return true;
    if (!D->isFileVarDecl() && !D->isStaticDataMember()) return true;
    if (D->getDeclContext()->isDependentContext() && !D->isStaticDataMember()) {}
    std::string f = x.fileOf(D->getLocation()); if (f.empty()) return true;
    auto v = x.var(D); auto *o = v.getAsObject(); (*o)["q"] = D->getQualifiedNameAsString(); (*o)["file"] = f; if (D->isStaticDataMember()) (*o)["smember"] = true;
    x.gvars.push_back(std::move(v)); return true;
  }
};

class Cons : public SemaConsumer {
  Sema *S = nullptr;
public:
  void InitializeSema(Sema &s) override { S = &s; }
  void ForgetSema() override { S = nullptr; }
  // Only template patterns are analysed: drop queued implicit instantiations (saves most of the time).
  bool HandleTopLevelDecl(DeclGroupRef) override { if (S) S->PendingInstantiations.clear(); return true; }
  void HandleTranslationUnit(ASTContext &C) override {
    X x(C); V v(x); v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o; o["funcs"] = std::move(x.funcs); o["recs"] = std::move(x.recs); o["enums"] = std::move(x.enums); o["gvars"] = std::move(x.gvars);
    json::Array t; for (auto &s : x.typeList) t.push_back(s); o["types"] = std::move(t);
    json::Array er; for (auto &s : gErrors) er.push_back(json::isUTF8(s) ? s : json::fixUTF8(s)); o["errors"] = std::move(er);
    std::error_code ec; llvm::raw_fd_ostream os(gOut, ec); os << json::Value(std::move(o)); os << "\n";
  }
};
class Act : public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Cons>(); } };

int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  gRoot = argv[1]; gOut = argv[2]; std::string mainf = argv[3];
  std::vector<std::string> cargs; for (int i = 5; i < argc; ++i) cargs.push_back(argv[i]);
  std::map<std::string, std::string> overlay;
  for (int round = 0; round < 6; ++round) {
    gBlanks.clear(); gErrors.clear();
    tooling::FixedCompilationDatabase DB(gRoot, cargs);
    tooling::ClangTool T(DB, {mainf});
    T.clearArgumentsAdjusters();
    T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    for (auto &p : overlay) T.mapVirtualFile(p.first, p.second);
    Diag d; T.setDiagnosticConsumer(&d);
    T.run(tooling::newFrontendActionFactory<Act>().get());
    llvm::errs() << "round " << round << " blanks " << gBlanks.size() << " errors " << gErrors.size() << "\n";
    for (auto &e : gErrors) llvm::errs() << "  E " << e << "\n";
    if (gBlanks.empty()) break;
    for (auto &b : gBlanks) {
      llvm::SmallString<256> abs(b.file); llvm::sys::fs::make_absolute(gRoot, abs); llvm::sys::path::remove_dots(abs, true);
      std::string p = abs.str().str();
      if (!overlay.count(p)) { auto mb = llvm::MemoryBuffer::getFile(p); if (!mb) { llvm::errs() << "cannot read " << p << "\n"; return 2; } overlay[p] = (*mb)->getBuffer().str(); }
      std::string &s = overlay[p]; if (s.compare(b.off, 9, "constexpr") == 0) s.replace(b.off, 9, "         ");
    }
  }
  for (auto &e : gErrors) llvm::errs() << "ERR " << e << "\n";
  return 0;
}
