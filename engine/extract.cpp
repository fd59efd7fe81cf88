// Typed-AST extractor: prints, as JSON, every function with a body (including
// template instantiations and lambdas) whose definition lies under a given
// directory, plus the records it uses.  Nothing is hand-copied: this is the
// clang AST of the file being compiled.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string Root;

class Emitter {
 public:
  ASTContext &C; SourceManager &SM;
  std::map<const void *, int> declIds;
  std::map<const Type *, int> typeIds;
  json::Array types;
  json::Array funcs;
  json::Object records;
  std::set<const FunctionDecl *> doneF;
  std::set<const CXXRecordDecl *> doneR;
  PrintingPolicy PP;
  Emitter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.PrintCanonicalTypes = true; PP.FullyQualifiedName = true;
  }
  int did(const Decl *D) {
    if (auto *V = dyn_cast<VarDecl>(D)) D = V->getCanonicalDecl();
    auto it = declIds.find(D); if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1; declIds[D] = n; return n;
  }
  bool inRoot(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return false;
    StringRef P = F->getFileEntry().tryGetRealPathName();
    return P.starts_with(Root);
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    StringRef P = F->getFileEntry().tryGetRealPathName();
    if (P.starts_with(Root)) P = P.drop_front(Root.size());
    return P.str();
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  json::Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
      case TemplateArgument::Type: return ty(A.getAsType());
      case TemplateArgument::Integral: { json::Object o; llvm::SmallString<16> s; A.getAsIntegral().toString(s, 10); o["int"] = s.str().str(); return o; }
      case TemplateArgument::Pack: { json::Array a; for (auto &x : A.pack_elements()) a.push_back(targ(x)); return a; }
      default: { json::Object o; o["other"] = (int)A.getKind(); return o; }
    }
  }
  // Types are interned; returns the index.
  int ty(QualType Q) {
    if (Q.isNull()) return -1;
    Q = Q.getCanonicalType();
    Q = Q.getUnqualifiedType();
    const Type *T = Q.getTypePtr();
    auto it = typeIds.find(T); if (it != typeIds.end()) return it->second;
    int id = types.size(); typeIds[T] = id; types.push_back(nullptr);
    json::Object o;
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      o["k"] = "b"; o["n"] = B->getName(PP).str();
      if (B->isInteger()) { o["bits"] = (int64_t)C.getTypeSize(Q); o["sg"] = B->isSignedInteger(); o["int"] = true; }
      if (B->isFloatingPoint()) o["fp"] = true;
    } else if (auto *P = dyn_cast<PointerType>(T)) {
      o["k"] = "p"; o["e"] = ty(P->getPointeeType()); if (P->getPointeeType().isConstQualified()) o["c"] = true;
    } else if (auto *R = dyn_cast<ReferenceType>(T)) {
      o["k"] = "r"; o["e"] = ty(R->getPointeeType()); if (R->getPointeeType().isConstQualified()) o["c"] = true;
    } else if (auto *A = dyn_cast<ConstantArrayType>(T)) {
      o["k"] = "a"; o["e"] = ty(A->getElementType()); o["sz"] = (int64_t)A->getSize().getZExtValue();
    } else if (auto *RT = dyn_cast<RecordType>(T)) {
      o["k"] = "c";
      RecordDecl *RD = RT->getDecl();
      std::string qn; llvm::raw_string_ostream os(qn);
      RD->printQualifiedName(os); os.flush();
      // strip inline namespaces such as std::__cxx11
      auto strip = [&](const char *s) { size_t p; while ((p = qn.find(s)) != std::string::npos) qn.erase(p, strlen(s)); };
      strip("__cxx11::"); strip("_V2::");
      o["n"] = qn;
      std::string full = Q.getAsString(PP); o["f"] = full;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        json::Array a; for (auto &x : S->getTemplateArgs().asArray()) a.push_back(targ(x));
        o["a"] = std::move(a);
      }
      if (auto *CR = dyn_cast<CXXRecordDecl>(RD)) {
        if (CR->isLambda()) { o["lam"] = true; }
        noteRecord(CR, full);
      }
    } else if (auto *E = dyn_cast<EnumType>(T)) {
      o["k"] = "e"; o["n"] = E->getDecl()->getQualifiedNameAsString();
    } else if (auto *F = dyn_cast<FunctionProtoType>(T)) {
      o["k"] = "f"; o["r"] = ty(F->getReturnType()); json::Array a; for (auto p : F->param_types()) a.push_back(ty(p)); o["a"] = std::move(a);
    } else {
      o["k"] = "?"; o["n"] = Q.getAsString(PP);
    }
    types[id] = std::move(o);
    return id;
  }
  void noteRecord(const CXXRecordDecl *R, const std::string &full) {
    R = R->getDefinition(); if (!R) return;
    if (!inRoot(R->getLocation())) return;
    if (!doneR.insert(R).second) return;
    json::Object o; o["n"] = R->getQualifiedNameAsString(); o["file"] = fileOf(R->getLocation()); o["line"] = line(R->getLocation());
    json::Array fs;
    for (auto *F : R->fields()) { json::Object f; f["n"] = F->getNameAsString(); f["t"] = ty(F->getType()); f["d"] = did(F);
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
      fs.push_back(std::move(f)); }
    o["fields"] = std::move(fs);
    json::Array bs; for (auto &B : R->bases()) bs.push_back(ty(B.getType()));
    o["bases"] = std::move(bs);
    o["poly"] = R->isPolymorphic(); o["abstract"] = R->isAbstract(); o["lam"] = R->isLambda();
    records[full] = std::move(o);
  }
  std::string fkey(const FunctionDecl *F) {
    std::string s; llvm::raw_string_ostream os(s);
    PrintingPolicy P2 = PP; 
    F->getNameForDiagnostic(os, P2, true);
    os << "(";
    bool first = true;
    for (auto *p : F->parameters()) { if (!first) os << ", "; first = false; os << p->getType().getCanonicalType().getAsString(PP); }
    os << ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) os << " const";
      if (M->getParent()->isLambda()) os << "@" << fileOf(M->getLocation()) << ":" << SM.getExpansionLineNumber(M->getLocation()) << ":" << SM.getExpansionColumnNumber(M->getLocation());
    }
    os.flush();
    return s;
  }
  json::Object fref(const FunctionDecl *F) {
    json::Object o;
    if (const FunctionDecl *D = F->getDefinition()) F = D;
    std::string q = F->getQualifiedNameAsString();
    size_t p; while ((p = q.find("__cxx11::")) != std::string::npos) q.erase(p, 9);
    o["q"] = q; o["root"] = inRoot(F->getLocation());
    if (inRoot(F->getLocation())) o["key"] = fkey(F);
    else if (F->getTemplateSpecializationArgs()) { json::Array a; for (auto &x : F->getTemplateSpecializationArgs()->asArray()) a.push_back(targ(x)); o["ta"] = std::move(a); }
    o["rt"] = ty(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isVirtual()) o["virt"] = true; if (M->isStatic()) o["static"] = true; o["cls"] = ty(C.getRecordType(M->getParent())); }
    queue.push_back(F);
    return o;
  }
  std::vector<const FunctionDecl *> queue;

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { json::Object o; o["k"] = "stdinit"; o["t"] = ty(E->getType()); o["c"] = json::Array{expr(X->getSubExpr())}; return o; }
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
    json::Object o; o["t"] = ty(E->getType()); o["l"] = line(E->getExprLoc());
    if (E->isLValue()) o["lv"] = true;
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_NoOp: case CK_LValueToRValue: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_ConstructorConversion: case CK_UserDefinedConversion:
          if (!isa<CXXReinterpretCastExpr>(E)) return expr(X->getSubExpr()); break;
        default: break;
      }
      o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["c"] = json::Array{expr(X->getSubExpr())};
      return o;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { o["k"] = "int"; llvm::SmallString<16> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType()); o["v"] = s.str().str(); return o; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { o["k"] = "flt"; llvm::SmallString<16> s; X->getValue().toString(s); o["v"] = s.str().str(); return o; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "bool"; o["v"] = X->getValue(); return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { o["k"] = "int"; o["v"] = std::to_string((int)X->getValue()); return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { o["k"] = "str"; if (X->getCharByteWidth() == 1) { std::string b = X->getBytes().str(); o["v"] = json::isUTF8(b) ? b : json::fixUTF8(b); } return o; }
    if (isa<CXXNullPtrLiteralExpr>(E)) { o["k"] = "null"; return o; }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return o; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fn"; o["f"] = fref(F); return o; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"] = "int"; llvm::SmallString<16> s; EC->getInitVal().toString(s, 10); o["v"] = s.str().str(); return o; }
      o["k"] = "var"; o["n"] = D->getNameAsString(); o["d"] = did(D);
      if (auto *V = dyn_cast<VarDecl>(D)) { if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["glob"] = V->getQualifiedNameAsString(); 
          const VarDecl *Def = nullptr; const Expr *I = V->getAnyInitializer(Def);
          if (I && (V->getType().isConstQualified() || V->isConstexpr())) o["init"] = expr(I); } 
        else if (V->isStaticLocal()) o["slocal"] = true; }
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "method"; o["f"] = fref(F); o["c"] = json::Array{expr(X->getBase())}; o["arrow"] = X->isArrow(); return o; }
      o["k"] = "mem"; o["n"] = D->getNameAsString(); o["c"] = json::Array{expr(X->getBase())}; o["arrow"] = X->isArrow();
      if (auto *FD = dyn_cast<FieldDecl>(D)) o["cls"] = ty(C.getRecordType(FD->getParent()));
      else if (auto *V = dyn_cast<VarDecl>(D)) { o["static"] = true; if (V->getAnyInitializer()) o["init"] = expr(V->getAnyInitializer()); }
      return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["post"] = X->isPostfix(); o["c"] = json::Array{expr(X->getSubExpr())}; return o; }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) { o["k"] = "cas"; std::string s = X->getOpcodeStr().str(); s.pop_back(); o["op"] = s; o["ct"] = ty(X->getComputationResultType()); o["lt"] = ty(X->getComputationLHSType()); o["c"] = json::Array{expr(X->getLHS()), expr(X->getRHS())}; return o; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) { o["k"] = "bin"; o["op"] = X->getOpcodeStr().str(); o["c"] = json::Array{expr(X->getLHS()), expr(X->getRHS())}; return o; }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      // assert(): (cond) ? void(0) : __assert_fail(...)
      const Expr *F = X->getFalseExpr()->IgnoreParenImpCasts();
      if (auto *CE = dyn_cast<CallExpr>(F)) if (auto *FD = CE->getDirectCallee()) if (FD->getNameAsString() == "__assert_fail") { o["k"] = "assert"; o["c"] = json::Array{expr(X->getCond())}; return o; }
      o["k"] = "cond"; o["c"] = json::Array{expr(X->getCond()), expr(X->getTrueExpr()), expr(X->getFalseExpr())}; return o; }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "opcall"; o["op"] = getOperatorSpelling(X->getOperator());
      json::Array a; for (auto *e : X->arguments()) a.push_back(expr(e)); o["c"] = std::move(a);
      if (auto *F = X->getDirectCallee()) { o["f"] = fref(F); o["member"] = isa<CXXMethodDecl>(F); }
      return o; }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "mcall"; const MemberExpr *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
      if (ME && X->getMethodDecl()) { o["f"] = fref(X->getMethodDecl()); o["obj"] = expr(ME->getBase()); o["arrow"] = ME->isArrow(); if (ME->hasQualifier()) o["nonvirt"] = true; o["n"] = ME->getMemberDecl()->getNameAsString(); }
      json::Array a; for (auto *e : X->arguments()) a.push_back(expr(e)); o["c"] = std::move(a); return o; }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call"; if (auto *F = X->getDirectCallee()) o["f"] = fref(F); else o["fe"] = expr(X->getCallee());
      json::Array a; for (auto *e : X->arguments()) a.push_back(expr(e)); o["c"] = std::move(a); return o; }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *F = X->getConstructor();
      o["k"] = "ctor"; o["f"] = fref(F);
      o["copy"] = F->isCopyOrMoveConstructor(); o["zero"] = X->requiresZeroInitialization(); o["listinit"] = X->isListInitialization();
      if (F->isImplicit() || F->isDefaulted()) o["triv"] = true;
      json::Array a; for (auto *e : X->arguments()) a.push_back(expr(e)); o["c"] = std::move(a); return o; }
    if (auto *X = dyn_cast<InitListExpr>(E)) { if (X->isTransparent() && X->getNumInits()==1) return expr(X->getInit(0)); o["k"] = "ilist"; json::Array a; const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm(); if (!S) S = X; for (auto *e : S->inits()) a.push_back(expr(e)); o["c"] = std::move(a); return o; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o["k"] = "zero"; return o; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { o["k"] = "new"; o["et"] = ty(X->getAllocatedType()); o["c"] = json::Array{expr(X->getInitializer())}; return o; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "del"; o["c"] = json::Array{expr(X->getArgument())}; return o; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "idx"; o["c"] = json::Array{expr(X->getBase()), expr(X->getIdx())}; return o; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda"; o["ref"] = X->getCaptureDefault() == LCD_ByRef;
      json::Array ops; 
      auto *M = X->getCallOperator();
      if (auto *FT = M->getDescribedFunctionTemplate()) { for (auto *S : FT->specializations()) if (S->hasBody()) { ops.push_back(fkey(S)); queue.push_back(S);} o["generic"] = true; }
      else { ops.push_back(fkey(M)); queue.push_back(M); }
      o["ops"] = std::move(ops);
      json::Array caps;
      for (auto &c : X->captures()) { json::Object q; if (c.capturesVariable()) { q["d"] = did(c.getCapturedVar()); q["n"] = c.getCapturedVar()->getNameAsString(); } else if (c.capturesThis()) q["this"] = true; q["byref"] = c.getCaptureKind() == LCK_ByRef; caps.push_back(std::move(q)); }
      o["caps"] = std::move(caps);
      return o; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; if (X->getSubExpr()) o["c"] = json::Array{expr(X->getSubExpr())}; return o; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { Expr::EvalResult R; if (X->EvaluateAsInt(R, C)) { o["k"] = "int"; llvm::SmallString<16> s; R.Val.getInt().toString(s, 10); o["v"] = s.str().str(); return o; } }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["k"] = "inhctor"; o["f"] = fref(X->getConstructor()); return o; }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { o["k"] = "arrcopy"; o["c"] = json::Array{expr(X->getCommonExpr()->getSourceExpr())}; return o; }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) { o["k"] = "bool"; o["v"] = X->getValue(); return o; }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { o["k"] = "bool"; o["v"] = X->getValue(); return o; }
    o["k"] = "unk"; o["cls"] = E->getStmtClassName();
    return o;
  }
  json::Value vdecl(const VarDecl *V) {
    json::Object o; o["k"] = "var"; o["n"] = V->getNameAsString(); o["d"] = did(V); o["t"] = ty(V->getType()); o["l"] = line(V->getLocation());
    if (V->getType().isConstQualified()) o["const"] = true;
    if (V->isStaticLocal()) o["slocal"] = true;
    if (V->getInit()) o["init"] = expr(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) { o["k"] = "decomp"; json::Array b; for (auto *B : D->bindings()) { json::Object q; q["n"] = B->getNameAsString(); q["d"] = did(B); q["t"] = ty(B->getType());
        if (auto *HV = B->getHoldingVar()) q["hv"] = did(HV); b.push_back(std::move(q)); } o["b"] = std::move(b); }
    return o;
  }
  json::Value stmts(const CompoundStmt *S) { json::Array a; for (auto *s : S->body()) a.push_back(stmt(s)); return a; }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { json::Object o; o["k"] = "expr"; o["l"] = line(E->getBeginLoc()); o["e"] = expr(E); return o; }
    json::Object o; o["l"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { o["k"] = "block"; o["c"] = stmts(X); return o; }
    if (auto *X = dyn_cast<DeclStmt>(S)) { o["k"] = "decl"; json::Array a; for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(vdecl(V)); o["c"] = std::move(a); return o; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { o["k"] = "ret"; o["e"] = expr(X->getRetValue()); return o; }
    if (auto *X = dyn_cast<IfStmt>(S)) { o["k"] = "if"; 
      if (X->isConstexpr()) { if (auto NC = X->getNondiscardedCase(C)) { const Stmt *N = *NC; if (!N) { o["k"] = "null"; return o; } return stmt(N); } o["constexpr"] = true; }
      if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getConditionVariable()) o["cv"] = vdecl(X->getConditionVariable()); o["e"] = expr(X->getCond()); o["then"] = stmt(X->getThen()); o["else"] = stmt(X->getElse()); return o; }
    if (auto *X = dyn_cast<ForStmt>(S)) { o["k"] = "for"; o["init"] = stmt(X->getInit()); o["e"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { o["k"] = "while"; if (X->getConditionVariable()) o["cv"] = vdecl(X->getConditionVariable()); o["e"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["e"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { o["k"] = "frange"; o["range"] = expr(X->getRangeInit()); o["var"] = vdecl(X->getLoopVariable()); o["body"] = stmt(X->getBody()); return o; }
    if (isa<BreakStmt>(S)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return o; }
    if (isa<NullStmt>(S)) { o["k"] = "null"; return o; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; o["e"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["e"] = expr(X->getLHS()); o["body"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["body"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { o["k"] = "try"; o["body"] = stmt(X->getTryBlock()); return o; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    o["k"] = "unk"; o["cls"] = S->getStmtClassName();
    return o;
  }
  void func(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D)) {
      if (F->isDefaulted()) return;
      return;
    }
    F = D;
    if (F->isDependentContext() || F->isTemplated()) return;
    if (!inRoot(F->getLocation())) return;
    if (!doneF.insert(F->getCanonicalDecl()).second) return;
    json::Object o; o["key"] = fkey(F); o["q"] = F->getQualifiedNameAsString(); o["n"] = F->getNameAsString();
    o["file"] = fileOf(F->getLocation()); o["line"] = line(F->getLocation()); o["endline"] = line(F->getBodyRBrace());
    o["rt"] = ty(F->getReturnType());
    json::Array ps; for (auto *p : F->parameters()) { json::Object q; q["n"] = p->getNameAsString(); q["d"] = did(p); q["t"] = ty(p->getType()); ps.push_back(std::move(q)); }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(C.getRecordType(M->getParent())); o["const"] = M->isConst(); o["virt"] = M->isVirtual(); o["static"] = M->isStatic();
      json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(fkey(b)); o["over"] = std::move(ov);
      o["lam"] = M->getParent()->isLambda();
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) { o["ctor"] = true; if (F->isDefaulted()) o["dflt"] = true; json::Array in; for (auto *I : K->inits()) { json::Object q; if (I->isAnyMemberInitializer()) q["m"] = I->getAnyMember()->getNameAsString(); else if (I->isBaseInitializer()) q["base"] = ty(QualType(I->getBaseClass(), 0)); else q["deleg"] = true; q["e"] = expr(I->getInit()); in.push_back(std::move(q)); } o["inits"] = std::move(in); }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (F->isDefaulted()) o["dflt"] = true;
    o["body"] = stmt(F->getBody());
    funcs.push_back(std::move(o));
  }
  void drain() { while (!queue.empty()) { auto *F = queue.back(); queue.pop_back(); func(F); } }
};

class V : public RecursiveASTVisitor<V> {
 public:
  Emitter &E; V(Emitter &E) : E(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl *D) {
    if (!D) return true;
    if (!isa<TranslationUnitDecl>(D) && !isa<NamespaceDecl>(D) && !isa<LinkageSpecDecl>(D) && D->getDeclContext() && D->getDeclContext()->getRedeclContext()->isFileContext() && !E.inRoot(D->getLocation())) return true;
    if (auto *N = dyn_cast<NamespaceDecl>(D)) { if (N->isStdNamespace() || N->getNameAsString() == "__gnu_cxx" ) return true; }
    return RecursiveASTVisitor<V>::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl *F) { E.func(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (!R->isDependentContext() && R->getDefinition() && E.inRoot(R->getLocation()) && !R->isLambda()) E.ty(E.C.getRecordType(R)); return true; }
};

class Cons : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    Emitter E(C); V v(E); v.TraverseDecl(C.getTranslationUnitDecl()); E.drain();
    json::Object o; o["types"] = std::move(E.types); o["funcs"] = std::move(E.funcs); o["records"] = std::move(E.records);
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};
class Act : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
  if (argc < 3) { llvm::errs() << "usage: extract ROOT FILE [args]\n"; return 2; }
  Root = argv[1];
  std::string File = argv[2];
  auto Buf = llvm::MemoryBuffer::getFile(File);
  if (!Buf) { llvm::errs() << "cannot read " << File << "\n"; return 2; }
  std::vector<std::string> Args = {"-w", "-std=c++20", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"};
  for (int i = 3; i < argc; i++) Args.push_back(argv[i]);
  bool ok = clang::tooling::runToolOnCodeWithArgs(std::make_unique<Act>(), (*Buf)->getBuffer(), Args, File);
  return ok ? 0 : 1;
}
