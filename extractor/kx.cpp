// kx: dumps the type-checked program (functions with bodies, classes, enums,
// globals) of one translation unit as JSON, for declarations located under the
// given roots.  Nothing is judged here: the rules run over this dump.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;

namespace {

struct Dumper {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<std::string, Value> Functions, Classes, Enums, Globals;
  std::vector<const FunctionDecl *> Work;
  std::set<const FunctionDecl *> Seen;
  std::map<const Decl *, int> LocalIds;
  int NextLocal = 0;

  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.TerseOutput = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> Path(P.getFilename());
    SM.getFileManager().makeAbsolutePath(Path);
    llvm::sys::path::remove_dots(Path, true);
    return std::string(Path);
  }
  bool inRoots(SourceLocation L) {
    std::string F = fileOf(L);
    for (auto &R : Roots)
      if (llvm::StringRef(F).starts_with(R)) return true;
    return false;
  }
  int lineOf(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    PrintingPolicy P2(PP);
    P2.SuppressUnwrittenScope = true;
    D->printQualifiedName(OS, P2);
    return OS.str();
  }
  std::string idOf(const Decl *D) {
    D = D->getCanonicalDecl();
    llvm::SmallString<128> Buf;
    bool bad = index::generateUSRForDecl(D, Buf);
    std::string S = bad ? std::string("?") : std::string(Buf);
    const FunctionDecl *FD = dyn_cast<FunctionDecl>(D);
    bool lambdaish = false;
    if (auto *MD = dyn_cast_or_null<CXXMethodDecl>(FD)) lambdaish = MD->getParent()->isLambda();
    bool local = false;
    for (const DeclContext *DC = D->getDeclContext(); DC; DC = DC->getParent())
      if (isa<FunctionDecl>(DC)) { local = true; break; }
    if (bad || lambdaish || local) {
      SourceLocation L = SM.getExpansionLoc(D->getLocation());
      S += "@" + fileOf(L) + ":" + std::to_string(lineOf(L)) + ":" +
           std::to_string(SM.getExpansionColumnNumber(L)) + ":" +
           std::to_string(SM.getFileOffset(SM.getSpellingLoc(D->getLocation())));
      // distinguish instantiations of the enclosing template
      for (const DeclContext *DC = D->getDeclContext(); DC; DC = DC->getParent())
        if (auto *EF = dyn_cast<FunctionDecl>(DC)) {
          if (auto *Args = EF->getTemplateSpecializationArgs()) {
            llvm::raw_string_ostream OS(S);
            printTemplateArgumentList(OS, Args->asArray(), PP);
          }
          if (auto *MD = dyn_cast<CXXMethodDecl>(EF)) S += "|" + ty(Ctx.getTypeDeclType(MD->getParent()));
        }
      if (FD)
        if (auto *Args = FD->getTemplateSpecializationArgs()) {
          llvm::raw_string_ostream OS(S);
          printTemplateArgumentList(OS, Args->asArray(), PP);
        }
    }
    return S;
  }
  int localId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = LocalIds.find(D);
    if (It != LocalIds.end()) return It->second;
    return LocalIds[D] = ++NextLocal;
  }
  void want(const FunctionDecl *FD) {
    if (!FD) return;
    const FunctionDecl *Def = nullptr;
    if (FD->hasBody(Def) && Def) FD = Def;
    else if (const FunctionDecl *P = FD->getTemplateInstantiationPattern()) {
      (void)P;
    }
    if (!inRoots(FD->getLocation())) return;
    if (!Seen.insert(FD).second) return;
    Work.push_back(FD);
  }

  static bool nothrow(const FunctionProtoType *PT) {
    auto K = PT->getExceptionSpecType();
    if (K == EST_Unevaluated || K == EST_Uninstantiated || K == EST_Unparsed || K == EST_DependentNoexcept) return false;
    return PT->isNothrow();
  }
  // ---------------------------------------------------------------- exprs
  Value fnRef(const FunctionDecl *FD) {
    Object O;
    O["id"] = idOf(FD);
    O["q"] = qname(FD);
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = ty(Ctx.getTypeDeclType(MD->getParent()));
      if (MD->isStatic()) O["st"] = 1;
      if (MD->isConst()) O["cn"] = 1;
      if (MD->isVirtual()) O["virt"] = 1;
      if (MD->getParent()->isLambda()) O["lam"] = 1;
    }
    if (auto *PT = FD->getType()->getAs<FunctionProtoType>()) {
      if (nothrow(PT)) O["nx"] = 1;
      Array PTs;
      for (auto T : PT->param_types()) PTs.push_back(ty(T));
      O["pt"] = std::move(PTs);
    }
    O["rt"] = ty(FD->getReturnType());
    if (auto *Args = FD->getTemplateSpecializationArgs()) {
      Array A;
      for (auto &TA : Args->asArray()) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        TA.print(PP, OS, true);
        A.push_back(OS.str());
      }
      O["ta"] = std::move(A);
    }
    if (inRoots(FD->getLocation())) {
      O["in"] = 1;
      want(FD);
    }
    if (FD->isNoReturn()) O["nr"] = 1;
    return O;
  }

  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
        if (!X->getSourceExpr()) break;
        E = X->getSourceExpr();
      } else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_NoOp: case CK_FunctionToPointerDecay:
        case CK_ArrayToPointerDecay: case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
          E = X->getSubExpr();
          continue;
        default: break;
        }
        break;
      } else break;
    }
    return E;
  }

  Value kids(const Stmt *S) {
    Array A;
    for (const Stmt *C : S->children())
      if (C) A.push_back(any(C));
    return A;
  }

  Value any(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    return stmt(S);
  }

  void tagConst(Object &O, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (T.isNull() || !(T->isIntegralOrEnumerationType())) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
      llvm::SmallString<40> Buf;
      R.Val.getInt().toString(Buf, 10);
      O["cv"] = std::string(Buf);
    }
  }

  Value expr(const Expr *E0) {
    bool Temp = false;
    const Expr *E = E0;
    while (true) {
      const Expr *E1 = strip(E);
      if (auto *X = dyn_cast_or_null<CXXBindTemporaryExpr>(E1)) { E = X->getSubExpr(); Temp = true; continue; }
      E = E1;
      break;
    }
    if (!E) return nullptr;
    Object O;
    O["l"] = lineOf(E->getExprLoc());
    O["t"] = ty(E->getType());
    if (E->isGLValue()) O["lv"] = 1;
    if (Temp) O["bt"] = 1;
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      O["k"] = "mat";
      if (X->getExtendingDecl()) O["ext"] = 1;
      O["x"] = expr(X->getSubExpr());
      if (const CXXRecordDecl *RD = X->getType()->getAsCXXRecordDecl())
        if (RD->hasDefinition() && !RD->hasTrivialDestructor()) O["dtor"] = 1;
      return O;
    }
    if (auto *X = dyn_cast<ImplicitCastExpr>(E))
      if (X->getCastKind() == CK_LValueToRValue) {
        O["k"] = "ld"; O["x"] = expr(X->getSubExpr()); tagConst(O, E);
        return O;
      }

    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "int";
      llvm::SmallString<40> Buf;
      X->getValue().toString(Buf, 10, E->getType()->isSignedIntegerType());
      O["cv"] = std::string(Buf);
      return O;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["k"] = "int"; O["cv"] = std::to_string(X->getValue()); return O; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"] = "int"; O["cv"] = X->getValue() ? "1" : "0"; return O; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "null"; return O; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { O["k"] = "float"; O["v"] = X->getValueAsApproximateDouble(); return O; }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      O["k"] = "str";
      if (X->getCharByteWidth() == 1) {
        std::string S = X->getString().str();
        if (!llvm::json::isUTF8(S)) S = llvm::json::fixUTF8(S);
        O["v"] = S;
      }
      return O;
    }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { O["k"] = "str"; O["v"] = X->getFunctionName() ? X->getFunctionName()->getString().str() : ""; return O; }
    if (isa<CXXThisExpr>(E)) { O["k"] = "this"; return O; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      O["k"] = "ref";
      O["n"] = D->getNameAsString();
      if (auto *FD = dyn_cast<FunctionDecl>(D)) { O["d"] = "fn"; O["fn"] = fnRef(FD); return O; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["d"] = "enum"; O["q"] = qname(EC);
        llvm::SmallString<40> Buf; EC->getInitVal().toString(Buf, 10); O["cv"] = std::string(Buf);
        return O;
      }
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        if (VD->isLocalVarDeclOrParm() && !VD->isStaticLocal()) {
          O["d"] = isa<ParmVarDecl>(VD) ? "parm" : "var";
          O["id"] = localId(VD);
          if (VD->getType()->isReferenceType()) O["isref"] = 1;
        } else {
          O["d"] = "glob"; O["q"] = qname(VD); O["gid"] = idOf(VD);
          if (VD->getTLSKind() != VarDecl::TLS_None) O["tls"] = 1;
        }
        if (X->refersToEnclosingVariableOrCapture()) O["cap"] = 1;
        tagConst(O, E);
        return O;
      }
      if (auto *BD = dyn_cast<BindingDecl>(D)) {
        if (BD->getBinding()) { 
          O["d"] = "bind"; O["id"] = localId(BD); O["bx"] = expr(BD->getBinding());
        } else { O["d"] = "bind"; O["id"] = localId(BD); }
        return O;
      }
      O["d"] = "other";
      tagConst(O, E);
      return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *FD = dyn_cast<FunctionDecl>(X->getMemberDecl())) {
        O["k"] = "memfn"; O["b"] = expr(X->getBase()); O["fn"] = fnRef(FD);
        return O;
      }
      if (auto *VD = dyn_cast<VarDecl>(X->getMemberDecl())) {
        O["k"] = "ref"; O["d"] = "glob"; O["n"] = VD->getNameAsString(); O["q"] = qname(VD); O["gid"] = idOf(VD);
        tagConst(O, E);
        return O;
      }
      O["k"] = "mem";
      O["b"] = expr(X->getBase());
      O["n"] = X->getMemberDecl()->getNameAsString();
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        O["own"] = qname(FD->getParent());
        if (FD->isAnonymousStructOrUnion()) O["anon"] = 1;
        if (FD->getType()->isReferenceType()) O["isref"] = 1;
      }
      if (X->isArrow()) O["arr"] = 1;
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "call"; O["op"] = getOperatorSpelling(X->getOperator());
      const FunctionDecl *FD = X->getDirectCallee();
      Array A;
      unsigned i = 0;
      if (FD) {
        O["fn"] = fnRef(FD);
        auto *MD = dyn_cast<CXXMethodDecl>(FD);
        if (MD && !MD->isStatic()) { O["o"] = expr(X->getArg(0)); i = 1; }
      }
      for (; i < X->getNumArgs(); ++i) A.push_back(expr(X->getArg(i)));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "call";
      if (const CXXMethodDecl *MD = X->getMethodDecl()) {
        O["fn"] = fnRef(MD);
        O["o"] = expr(X->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
          if (ME->isArrow()) O["arr"] = 1;
      } else O["ce"] = expr(X->getCallee());
      Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      if (const FunctionDecl *FD = X->getDirectCallee()) {
        O["fn"] = fnRef(FD);
        if (unsigned B = FD->getBuiltinID()) { (void)B; O["builtin"] = 1; }
      }
      else O["ce"] = expr(X->getCallee());
      Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["a"] = std::move(A);
      tagConst(O, E);
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      // elide trivial copies produced by the compiler around prvalues
      if (X->isElidable() && X->getNumArgs() == 1) {
        Value V = expr(X->getArg(0));
        return V;
      }
      O["k"] = "ctor";
      O["fn"] = fnRef(X->getConstructor());
      O["cls"] = ty(Ctx.getTypeDeclType(X->getConstructor()->getParent()));
      auto *C = X->getConstructor();
      if (C->isCopyConstructor()) O["cp"] = 1;
      if (C->isMoveConstructor()) O["mv"] = 1;
      if (C->isTrivial()) O["triv"] = 1;
      if (X->isListInitialization()) O["li"] = 1;
      Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "ctor"; O["fn"] = fnRef(X->getConstructor()); O["a"] = Array();
      O["cls"] = ty(Ctx.getTypeDeclType(X->getConstructor()->getParent()));
      return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "asg"; O["op"] = X->getOpcodeStr().str();
      O["x"] = expr(X->getLHS()); O["y"] = expr(X->getRHS());
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->getOpcode() == BO_Assign) O["k"] = "asg";
      else O["k"] = "bin";
      O["op"] = X->getOpcodeStr().str();
      O["x"] = expr(X->getLHS()); O["y"] = expr(X->getRHS());
      if (X->getOpcode() != BO_Assign) tagConst(O, E);
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un";
      std::string Op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) Op = "post" + Op;
      O["op"] = Op;
      O["x"] = expr(X->getSubExpr());
      tagConst(O, E);
      return O;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      O["k"] = "cond";
      O["c"] = expr(X->getCond());
      O["x"] = expr(X->getTrueExpr());
      O["y"] = expr(X->getFalseExpr());
      tagConst(O, E);
      return O;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      O["k"] = "cast";
      O["ck"] = X->getCastKindName();
      if (isa<ExplicitCastExpr>(X)) O["ex"] = 1;
      O["x"] = expr(X->getSubExpr());
      O["ft"] = ty(X->getSubExpr()->getType());
      tagConst(O, E);
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      CXXMethodDecl *Op = X->getCallOperator();
      Array Caps;
      auto II = X->capture_init_begin();
      for (auto &C : X->captures()) {
        Object CO;
        CO["ref"] = C.getCaptureKind() == LCK_ByRef ? 1 : 0;
        if (C.capturesThis()) CO["this"] = 1;
        else if (C.capturesVariable()) {
          CO["n"] = C.getCapturedVar()->getNameAsString();
          CO["id"] = localId(C.getCapturedVar());
          CO["vt"] = ty(C.getCapturedVar()->getType());
        }
        if (II != X->capture_init_end() && *II) CO["i"] = expr(*II);
        ++II;
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      O["cls"] = ty(Ctx.getTypeDeclType(X->getLambdaClass()));
      Array Ids;
      if (FunctionTemplateDecl *FT = X->getLambdaClass()->getDependentLambdaCallOperator()) {
        for (auto *Spec : FT->specializations()) { Ids.push_back(idOf(Spec)); want(Spec); }
        O["generic"] = 1;
      } else { Ids.push_back(idOf(Op)); Seen.insert(Op); Work.push_back(Op); }
      O["fns"] = std::move(Ids);
      return O;
    }
    if (auto *X = dyn_cast<CoawaitExpr>(E)) {
      O["k"] = "await";
      O["x"] = expr(X->getOperand());
      if (X->isImplicit()) O["impl"] = 1;
      if (X->getCommonExpr()) { O["awt"] = ty(X->getCommonExpr()->getType());  
        // the awaiter expression (operator co_await / await_transform included)
        const Expr *CE = X->getCommonExpr();
        const Expr *S = CE;
        if (auto *OV = dyn_cast<OpaqueValueExpr>(S)) S = OV->getSourceExpr();
        O["awx"] = expr(S);
      }
      auto cal = [&](const Expr *R) -> Value {
        if (!R) return nullptr;
        R = strip(R);
        while (R) {
          if (auto *M = dyn_cast<MaterializeTemporaryExpr>(R)) { R = strip(M->getSubExpr()); continue; }
          if (auto *M = dyn_cast<CXXBindTemporaryExpr>(R)) { R = strip(M->getSubExpr()); continue; }
          if (auto *M = dyn_cast<ImplicitCastExpr>(R)) { R = strip(M->getSubExpr()); continue; }
          break;
        }
        if (auto *C = dyn_cast_or_null<CallExpr>(R))
          if (auto *FD = C->getDirectCallee()) {
            // __builtin_coro_resume(await_suspend(...).address())
            return fnRef(FD);
          }
        return nullptr;
      };
      O["rdy"] = cal(X->getReadyExpr());
      O["res"] = cal(X->getResumeExpr());
      O["sus"] = suspCall(X->getSuspendExpr());
      return O;
    }
    if (auto *X = dyn_cast<CoyieldExpr>(E)) { O["k"] = "yield"; O["x"] = expr(X->getOperand()); return O; }
    if (auto *X = dyn_cast<StmtExpr>(E)) { O["k"] = "stmtexpr"; O["b"] = stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      O["k"] = "init";
      Array A;
      for (auto *I : S->inits()) A.push_back(expr(I));
      O["a"] = std::move(A);
      if (auto *RT = S->getType()->getAs<RecordType>()) {
        Array N;
        if (auto *CR = dyn_cast<CXXRecordDecl>(RT->getDecl()))
          for (auto &B : CR->bases()) { (void)B; N.push_back("<base>"); }
        for (auto *F : RT->getDecl()->fields()) N.push_back(F->getNameAsString());
        O["fl"] = std::move(N);
        if (auto *F = S->getInitializedFieldInUnion()) O["uf"] = F->getNameAsString();
      }
      return O;
    }
    if (auto *X = dyn_cast<CXXParenListInitExpr>(E)) {
      O["k"] = "init";
      Array A;
      for (auto *I : X->getInitExprs()) A.push_back(expr(I));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "idx"; O["x"] = expr(X->getBase()); O["y"] = expr(X->getIdx()); return O; }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { Value V = expr(X->getExpr()); if (auto *VO = V.getAsObject()) (*VO)["dfl"] = 1; return V; }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { Value V = expr(X->getExpr()); if (auto *VO = V.getAsObject()) (*VO)["dfl"] = 1; return V; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new";
      O["nt"] = ty(X->getAllocatedType());
      if (X->isArray()) O["arr"] = 1;
      if (X->isArray() && X->getArraySize() && *X->getArraySize()) O["sz"] = expr(*X->getArraySize());
      Array P;
      for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) P.push_back(expr(X->getPlacementArg(i)));
      O["pl"] = std::move(P);
      if (X->getInitializer()) O["i"] = expr(X->getInitializer());
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "delete"; O["x"] = expr(X->getArgument()); return O; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "throw"; if (X->getSubExpr()) O["x"] = expr(X->getSubExpr()); return O; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { O["k"] = "sizeof"; tagConst(O, E); if (!X->isArgumentType()) {} else O["st"] = ty(X->getArgumentType()); return O; }
    if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) { O["k"] = "pseudodtor"; O["x"] = expr(X->getBase()); return O; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { O["k"] = "zero"; tagConst(O, E); return O; }
    if (auto *X = dyn_cast<AtomicExpr>(E)) { (void)X; O["k"] = "x"; O["x"] = "AtomicExpr"; O["c"] = kids(E); return O; }
    if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) { (void)X; O["k"] = "int"; tagConst(O, E); return O; }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { (void)X; O["k"] = "int"; tagConst(O, E); return O; }
    if (isa<RequiresExpr>(E) || isa<ConceptSpecializationExpr>(E)) { O["k"] = "int"; tagConst(O, E); return O; }
    if (auto *X = dyn_cast<SourceLocExpr>(E)) { (void)X; O["k"] = "srcloc"; return O; }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { O["k"] = "x"; O["x"] = "ArrayInitLoop"; O["c"] = Array(); return O; }
    O["k"] = "x";
    O["x"] = E->getStmtClassName();
    O["c"] = kids(E);
    return O;
  }

  // find the await_suspend callee inside the suspend expression
  Value suspCall(const Expr *R) {
    if (!R) return nullptr;
    struct V : RecursiveASTVisitor<V> {
      const FunctionDecl *F = nullptr;
      bool VisitCallExpr(CallExpr *C) {
        if (auto *FD = C->getDirectCallee())
          if (FD->getDeclName().isIdentifier() && FD->getName() == "await_suspend") F = FD;
        return true;
      }
    } Vis;
    Vis.TraverseStmt(const_cast<Expr *>(R));
    if (!Vis.F) return nullptr;
    return fnRef(Vis.F);
  }

  // ---------------------------------------------------------------- stmts
  Value varDecl(const VarDecl *VD) {
    Object O;
    O["n"] = VD->getNameAsString();
    O["id"] = localId(VD);
    O["t"] = ty(VD->getType());
    O["l"] = lineOf(VD->getLocation());
    if (VD->isStaticLocal()) { if (VD->getTLSKind() != VarDecl::TLS_None) O["tls"] = 1; O["static"] = 1; O["gid"] = idOf(VD); O["q"] = qname(VD); }
    if (VD->hasInit() && VD->getInit()) O["i"] = expr(VD->getInit());
    if (VD->getType()->isReferenceType()) O["isref"] = 1;
    if (const CXXRecordDecl *RD = VD->getType()->getAsCXXRecordDecl())
      if (RD->hasDefinition() && !RD->hasTrivialDestructor()) O["dtor"] = 1;
    return O;
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    Object O;
    O["l"] = lineOf(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "block";
      Array A;
      for (auto *C : X->body()) A.push_back(any(C));
      O["b"] = std::move(A);
      O["el"] = lineOf(X->getEndLoc());
      return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      Array A;
      for (auto *D : X->decls()) {
        if (auto *DD = dyn_cast<DecompositionDecl>(D)) {
          Value V = varDecl(DD);
          Array B;
          for (auto *BD : DD->bindings()) {
            Object BO;
            BO["n"] = BD->getNameAsString(); BO["id"] = localId(BD); BO["t"] = ty(BD->getType());
            if (BD->getBinding()) BO["x"] = expr(BD->getBinding());
            if (auto *HV = BD->getHoldingVar()) BO["hv"] = varDecl(HV);
            B.push_back(std::move(BO));
          }
          (*V.getAsObject())["binds"] = std::move(B);
          A.push_back(std::move(V));
        } else if (auto *VD = dyn_cast<VarDecl>(D)) A.push_back(varDecl(VD));
      }
      O["v"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if";
      if (X->isConstexpr()) {
        O["cx"] = 1;
      }
      if (X->isConsteval()) { O["consteval"] = X->isNonNegatedConsteval() ? 1 : 2; }
      if (X->getInit()) O["init"] = any(X->getInit());
      if (X->getConditionVariable()) O["cvd"] = varDecl(X->getConditionVariable());
      if (X->getCond()) O["c"] = expr(X->getCond());
      if (X->getThen()) O["x"] = any(X->getThen());
      if (X->getElse()) O["y"] = any(X->getElse());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while";
      if (X->getConditionVariable()) O["cvd"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond()); O["b"] = any(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) { O["k"] = "do"; O["c"] = expr(X->getCond()); O["b"] = any(X->getBody()); return O; }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "for";
      if (X->getInit()) O["init"] = any(X->getInit());
      if (X->getConditionVariable()) O["cvd"] = varDecl(X->getConditionVariable());
      if (X->getCond()) O["c"] = expr(X->getCond());
      if (X->getInc()) O["inc"] = expr(X->getInc());
      O["b"] = any(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "foreach";
      if (X->getInit()) O["init"] = any(X->getInit());
      if (X->getRangeInit()) O["r"] = expr(X->getRangeInit());
      if (X->getLoopVariable()) {
        if (auto *DD = dyn_cast<DecompositionDecl>(X->getLoopVariable())) {
          Value V = varDecl(DD);
          Array B;
          for (auto *BD : DD->bindings()) {
            Object BO; BO["n"] = BD->getNameAsString(); BO["id"] = localId(BD); BO["t"] = ty(BD->getType());
            if (BD->getBinding()) BO["x"] = expr(BD->getBinding());
            B.push_back(std::move(BO));
          }
          (*V.getAsObject())["binds"] = std::move(B);
          O["v"] = std::move(V);
        } else O["v"] = varDecl(X->getLoopVariable());
      }
      O["b"] = any(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "switch";
      if (X->getInit()) O["init"] = any(X->getInit());
      if (X->getConditionVariable()) O["cvd"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond()); O["b"] = any(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case";
      O["v"] = expr(X->getLHS());
      if (X->getRHS()) O["v2"] = expr(X->getRHS());
      Expr::EvalResult R;
      if (!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, Ctx)) {
        llvm::SmallString<40> Buf; R.Val.getInt().toString(Buf, 10); O["cv"] = std::string(Buf);
      }
      if (X->getRHS() && X->getRHS()->EvaluateAsInt(R, Ctx)) {
        llvm::SmallString<40> Buf; R.Val.getInt().toString(Buf, 10); O["cv2"] = std::string(Buf);
      }
      O["b"] = any(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "default"; O["b"] = any(X->getSubStmt()); return O; }
    if (isa<BreakStmt>(S)) { O["k"] = "break"; return O; }
    if (isa<ContinueStmt>(S)) { O["k"] = "continue"; return O; }
    if (isa<NullStmt>(S)) { O["k"] = "null_stmt"; return O; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "return"; if (X->getRetValue()) O["x"] = expr(X->getRetValue()); return O; }
    if (auto *X = dyn_cast<CoreturnStmt>(S)) { O["k"] = "coreturn"; if (X->getOperand()) O["x"] = expr(X->getOperand()); return O; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try"; O["b"] = any(X->getTryBlock());
      Array H;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *C = X->getHandler(i);
        Object HO;
        HO["l"] = lineOf(C->getBeginLoc());
        if (C->getExceptionDecl()) HO["v"] = varDecl(C->getExceptionDecl());
        HO["ct"] = C->getCaughtType().isNull() ? "..." : ty(C->getCaughtType());
        HO["b"] = any(C->getHandlerBlock());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H);
      return O;
    }
    if (auto *X = dyn_cast<CoroutineBodyStmt>(S)) return any(X->getBody());
    if (auto *X = dyn_cast<AttributedStmt>(S)) return any(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { O["k"] = "label"; O["n"] = X->getName(); O["b"] = any(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<GotoStmt>(S)) { O["k"] = "goto"; O["n"] = X->getLabel()->getNameAsString(); return O; }
    O["k"] = "x"; O["x"] = S->getStmtClassName(); O["c"] = kids(S);
    return O;
  }

  // ---------------------------------------------------------------- decls
  static const char *acc(AccessSpecifier A) {
    switch (A) {
    case AS_public: return "public";
    case AS_protected: return "protected";
    case AS_private: return "private";
    default: return "";
    }
  }

  void dumpFunction(const FunctionDecl *FD) {
    if (FD->isDependentContext()) return;
    const Stmt *Body = FD->getBody();
    std::string Id = idOf(FD);
    if (Functions.count(Id) ) {
      // prefer a definition
      if (Functions.at(Id).getAsObject()->get("body")) return;
      if (!Body) return;
    }
    Object O;
    O["id"] = Id;
    O["q"] = qname(FD);
    O["file"] = fileOf(FD->getLocation());
    O["line"] = lineOf(FD->getLocation());
    O["eline"] = lineOf(FD->getEndLoc());
    O["rt"] = ty(FD->getReturnType());
    O["acc"] = acc(FD->getAccess());
    if (FD->isDeleted()) O["deleted"] = 1;
    if (FD->isDefaulted()) O["defaulted"] = 1;
    if (FD->isImplicit()) O["implicit"] = 1;
    if (FD->getStorageClass() == SC_Static) O["static"] = 1;
    if (FD->hasAttr<WarnUnusedResultAttr>()) O["nodiscard"] = 1;
    if (auto *Args = FD->getTemplateSpecializationArgs()) {
      Array A;
      for (auto &TA : Args->asArray()) {
        std::string S; llvm::raw_string_ostream OS(S); TA.print(PP, OS, true); A.push_back(OS.str());
      }
      O["ta"] = std::move(A);
    }
    if (auto *PT = FD->getType()->getAs<FunctionProtoType>())
      if (nothrow(PT)) O["nx"] = 1;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = ty(Ctx.getTypeDeclType(MD->getParent()));
      O["clsq"] = qname(MD->getParent());
      if (MD->isStatic()) O["static"] = 1;
      if (MD->isConst()) O["const"] = 1;
      if (MD->isVirtual()) O["virt"] = 1;
      if (MD->getParent()->isLambda()) {
        O["lambda"] = 1;
        // enclosing function
        const DeclContext *DC = MD->getParent()->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (DC) O["parent"] = idOf(cast<FunctionDecl>(DC));
      }
      Array Ov;
      for (auto *M : MD->overridden_methods()) Ov.push_back(idOf(M));
      if (!Ov.empty()) O["overrides"] = std::move(Ov);
      if (isa<CXXDestructorDecl>(MD)) O["fk"] = "dtor";
      else if (auto *CD = dyn_cast<CXXConstructorDecl>(MD)) {
        O["fk"] = "ctor";
        if (CD->isCopyConstructor()) O["ck"] = "copy";
        else if (CD->isMoveConstructor()) O["ck"] = "move";
        else if (CD->isDefaultConstructor()) O["ck"] = "default";
        Array In;
        for (auto *I : CD->inits()) {
          Object IO;
          if (I->isAnyMemberInitializer()) { IO["m"] = I->getAnyMember()->getNameAsString(); IO["mt"] = ty(I->getAnyMember()->getType()); if (I->getAnyMember()->getType()->isReferenceType()) IO["isref"] = 1; }
          else if (I->isBaseInitializer()) IO["base"] = ty(QualType(I->getBaseClass(), 0));
          else IO["deleg"] = 1;
          if (I->isWritten()) IO["w"] = 1;
          if (I->getInit()) { IO["i"] = expr(I->getInit()); }
          In.push_back(std::move(IO));
        }
        O["inits"] = std::move(In);
      } else {
        O["fk"] = "method";
        if (MD->isMoveAssignmentOperator()) O["ck"] = "moveassign";
        if (MD->isCopyAssignmentOperator()) O["ck"] = "copyassign";
      }
    } else O["fk"] = "free";
    Array Ps;
    for (auto *P : FD->parameters()) {
      Object PO;
      PO["n"] = P->getNameAsString(); PO["id"] = localId(P); PO["t"] = ty(P->getType());
      if (P->getType()->isReferenceType()) PO["isref"] = 1;
      if (const CXXRecordDecl *RD = P->getType()->getAsCXXRecordDecl())
        if (RD->hasDefinition() && !RD->hasTrivialDestructor()) PO["dtor"] = 1;
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    if (Body) {
      if (auto *CB = dyn_cast<CoroutineBodyStmt>(Body)) {
        O["coro"] = 1;
        if (auto *PD = CB->getPromiseDecl()) O["promise"] = ty(PD->getType());
      }
      O["body"] = any(Body);
    }
    Functions.erase(Id);
    Functions.emplace(Id, Value(std::move(O)));
  }

  void dumpClass(const CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() || RD->isLambda()) return;
    std::string T = ty(Ctx.getTypeDeclType(RD));
    if (Classes.count(T)) return;
    Object O;
    O["t"] = T; O["q"] = qname(RD);
    O["file"] = fileOf(RD->getLocation()); O["line"] = lineOf(RD->getLocation());
    if (RD->isUnion()) O["union"] = 1;
    Array F;
    for (auto *FD : RD->fields()) {
      Object FO;
      FO["n"] = FD->getNameAsString(); FO["t"] = ty(FD->getType()); FO["acc"] = acc(FD->getAccess());
      FO["l"] = lineOf(FD->getLocation());
      if (FD->isMutable()) FO["mut"] = 1;
      if (FD->getType()->isReferenceType()) FO["isref"] = 1;
      if (FD->hasInClassInitializer() && FD->getInClassInitializer()) FO["i"] = expr(FD->getInClassInitializer());
      if (const CXXRecordDecl *R2 = FD->getType()->getAsCXXRecordDecl())
        if (R2->hasDefinition() && !R2->hasTrivialDestructor()) FO["dtor"] = 1;
      F.push_back(std::move(FO));
    }
    O["fields"] = std::move(F);
    if (RD->hasAttr<WarnUnusedResultAttr>()) O["nodiscard"] = 1;
    Array Bs;
    for (auto &B : RD->bases()) Bs.push_back(ty(B.getType()));
    O["bases"] = std::move(Bs);
    O["trivdtor"] = RD->hasTrivialDestructor();
    Array Ms;
    for (auto *M : RD->methods()) {
      Object MO;
      MO["id"] = idOf(M); MO["n"] = M->getNameAsString(); MO["acc"] = acc(M->getAccess());
      if (M->isDeleted()) MO["deleted"] = 1;
      if (M->isDefaulted()) MO["defaulted"] = 1;
      if (M->isImplicit()) MO["implicit"] = 1;
      if (M->isStatic()) MO["static"] = 1;
      if (M->isMoveAssignmentOperator()) MO["ck"] = "moveassign";
      if (M->isCopyAssignmentOperator()) MO["ck"] = "copyassign";
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
        if (CD->isCopyConstructor()) MO["ck"] = "copy";
        else if (CD->isMoveConstructor()) MO["ck"] = "move";
        else MO["ck"] = "ctor";
      }
      if (isa<CXXDestructorDecl>(M)) MO["ck"] = "dtor";
      Ms.push_back(std::move(MO));
    }
    O["methods"] = std::move(Ms);
    Array Fr;
    for (auto *FrD : RD->friends())
      if (FrD->getFriendType()) Fr.push_back(ty(FrD->getFriendType()->getType()));
    O["friends"] = std::move(Fr);
    // is copy/move usable?
    O["hascopy"] = RD->hasSimpleCopyConstructor() ;
    Classes.emplace(T, Value(std::move(O)));
  }
};

struct Finder : RecursiveASTVisitor<Finder> {
  Dumper &D;
  Finder(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!D.inRoots(FD->getLocation())) return true;
    if (FD->isDependentContext()) return true;
    if (FD->doesThisDeclarationHaveABody() || FD->isDefaulted() || FD->isDeleted()) {
      if (D.Seen.insert(FD).second) D.Work.push_back(FD);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (D.inRoots(RD->getLocation())) D.dumpClass(RD);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *ED) {
    if (!D.inRoots(ED->getLocation()) || !ED->isThisDeclarationADefinition() || ED->isDependentContext()) return true;
    Object O;
    O["q"] = D.qname(ED);
    O["file"] = D.fileOf(ED->getLocation()); O["line"] = D.lineOf(ED->getLocation());
    Array A;
    for (auto *C : ED->enumerators()) {
      Object CO; CO["n"] = C->getNameAsString();
      llvm::SmallString<40> Buf; C->getInitVal().toString(Buf, 10); CO["v"] = std::string(Buf);
      A.push_back(std::move(CO));
    }
    O["c"] = std::move(A);
    D.Enums.emplace(D.qname(ED), Value(std::move(O)));
    return true;
  }
  bool VisitVarDecl(VarDecl *VD) {
    if (!D.inRoots(VD->getLocation()) || VD->isLocalVarDeclOrParm()) return true;
    if (VD->getDeclContext()->isDependentContext()) return true;
    if (isa<ParmVarDecl>(VD)) return true;
    if (!VD->hasGlobalStorage()) return true;
    Object O;
    O["q"] = D.qname(VD); O["t"] = D.ty(VD->getType());
    O["file"] = D.fileOf(VD->getLocation()); O["line"] = D.lineOf(VD->getLocation());
    if (VD->getAnyInitializer() && !VD->getType()->isDependentType()) {
      const Expr *I = VD->getAnyInitializer();
      if (!I->isValueDependent()) { O["i"] = D.expr(I);
        if (VD->getType().isConstQualified() && VD->getType()->isIntegralOrEnumerationType())
          if (auto *V = VD->evaluateValue()) if (V->isInt()) { llvm::SmallString<40> Buf; V->getInt().toString(Buf, 10); O["cv"] = std::string(Buf); }
      }
    }
    D.Globals.emplace(D.idOf(VD), Value(std::move(O)));
    return true;
  }
};

struct Consumer : ASTConsumer {
  std::string Out;
  explicit Consumer(std::string O) : Out(std::move(O)) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    Finder F(D);
    F.TraverseDecl(C.getTranslationUnitDecl());
    while (!D.Work.empty()) {
      auto *FD = D.Work.back();
      D.Work.pop_back();
      D.dumpFunction(FD);
    }
    Object O;
    Array Fs, Cs, Es, Gs;
    for (auto &[K, V] : D.Functions) Fs.push_back(std::move(V));
    for (auto &[K, V] : D.Classes) Cs.push_back(std::move(V));
    for (auto &[K, V] : D.Enums) Es.push_back(std::move(V));
    for (auto &[K, V] : D.Globals) Gs.push_back(std::move(V));
    O["functions"] = std::move(Fs); O["classes"] = std::move(Cs);
    O["enums"] = std::move(Es); O["globals"] = std::move(Gs);
    O["errors"] = (int64_t)C.getDiagnostics().getNumErrors();
    Array Files;
    for (auto It = C.getSourceManager().fileinfo_begin(); It != C.getSourceManager().fileinfo_end(); ++It) {
      llvm::SmallString<256> P(It->first.getName());
      C.getSourceManager().getFileManager().makeAbsolutePath(P);
      llvm::sys::path::remove_dots(P, true);
      for (auto &R : Roots)
        if (llvm::StringRef(P).starts_with(R)) Files.push_back(std::string(P));
    }
    O["files"] = std::move(Files);
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    OS << Value(std::move(O));
  }
};

struct Action : ASTFrontendAction {
  std::string Out;
  explicit Action(std::string O) : Out(std::move(O)) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(Out);
  }
};
struct Factory : tooling::FrontendActionFactory {
  std::string Out;
  explicit Factory(std::string O) : Out(std::move(O)) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(Out); }
};
} // namespace

// usage: kx OUT.json ROOT[,ROOT...] FILE -- flags...
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: kx OUT ROOTS FILE -- flags\n"; return 2; }
  std::string Out = argv[1];
  llvm::SmallVector<llvm::StringRef, 4> Parts;
  llvm::StringRef(argv[2]).split(Parts, ',');
  for (auto P : Parts) Roots.push_back(P.str());
  std::string File = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  Tool.setPrintErrorMessage(true);
  Factory Fa(Out);
  return Tool.run(&Fa);
}
