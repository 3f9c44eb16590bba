// vx: serialises the type-checked program (AST + CFG) of one or more translation units to JSON.
// Usage: vx --root=/repo/libvoikko/src --out=FILE SRC -- clang args
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/MacroInfo.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string Root, Out;

namespace {

std::string fixUtf8(llvm::StringRef s) { return json::isUTF8(s) ? s.str() : json::fixUTF8(s); }

struct Ser {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array functions, records, enums, globals, decls;
  std::set<std::string> seenFn, seenRec, seenDecl, seenGlob, seenEnum;

  explicit Ser(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressUnwrittenScope = false;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto F = SM.getFilename(L);
    llvm::SmallString<256> P(F);
    llvm::sys::fs::make_absolute(P);
    llvm::SmallString<256> R;
    if (!llvm::sys::fs::real_path(P, R)) return std::string(R.str());
    return std::string(P.str());
  }
  int lineOf(SourceLocation L) { L = SM.getExpansionLoc(L); return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L); }
  std::map<std::string, std::string> relCache;
  std::string rel(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.rfind(Root + "/", 0) == 0) return f.substr(Root.size() + 1);
    return "";
  }
  std::map<unsigned, std::string> fidRel;
  std::string relFast(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    unsigned h = SM.getFileID(L).getHashValue();
    auto it = fidRel.find(h);
    if (it != fidRel.end()) return it->second;
    return fidRel[h] = rel(L);
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->getNameForDiagnostic(OS, PP, true);
    return OS.str();
  }
  std::string recName(const CXXRecordDecl *R) {
    if (R->isLambda()) {
      return "lambda@" + relFast(R->getLocation()) + ":" + std::to_string(lineOf(R->getLocation())) + ":" +
             std::to_string(SM.getExpansionColumnNumber(R->getLocation()));
    }
    return qname(R);
  }
  std::string fnKey(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string S;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) S = recName(M->getParent()) + "::" + M->getNameAsString();
    }
    if (S.empty()) {
      S = qname(F);
    }
    S += "(";
    bool first = true;
    for (auto *P : F->parameters()) {
      if (!first) S += ",";
      first = false;
      S += ty(P->getType());
    }
    if (F->isVariadic()) S += ",...";
    S += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) S += "const";
    if (F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace())
      S += "@" + relFast(F->getLocation());
    return S;
  }
  std::string globKey(const VarDecl *V) {
    std::string S = qname(V->getCanonicalDecl());
    if (V->isStaticLocal()) {
      if (auto *F = dyn_cast_or_null<FunctionDecl>(V->getParentFunctionOrMethod())) S = fnKey(F) + "::" + V->getNameAsString();
    } else if (V->getFormalLinkage() == Linkage::Internal) {
      S += "@" + relFast(V->getLocation());
    }
    return S;
  }

  // ---- per function state
  struct FnState {
    std::map<const Stmt *, int> ids;
    std::map<const VarDecl *, int> vars;
    json::Array nodes, varArr;
    std::string file;
    const FunctionDecl *F = nullptr;
  };
  FnState *S = nullptr;

  static const Stmt *strip1(const Stmt *X) {
    if (auto *P = dyn_cast<ParenExpr>(X)) return P->getSubExpr();
    if (auto *P = dyn_cast<ImplicitCastExpr>(X)) return P->getSubExpr();
    if (auto *P = dyn_cast<FullExpr>(X)) return P->getSubExpr();
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) return P->getSubExpr();
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) return P->getSubExpr();
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) return P->getReplacement();
    return nullptr;
  }
  static const Stmt *strip(const Stmt *X) {
    while (X) {
      const Stmt *N = strip1(X);
      if (!N) break;
      X = N;
    }
    return X;
  }

  int varId(const VarDecl *V) {
    V = V->getCanonicalDecl();
    auto it = S->vars.find(V);
    if (it != S->vars.end()) return it->second;
    int id = (int)S->varArr.size();
    S->vars[V] = id;
    json::Object O;
    O["n"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["l"] = lineOf(V->getLocation());
    bool outer = V->getParentFunctionOrMethod() && dyn_cast<FunctionDecl>(V->getParentFunctionOrMethod()) != S->F;
    O["k"] = isa<ParmVarDecl>(V) ? "param" : (outer ? "outer" : "local");
    if (outer && isa<ParmVarDecl>(V)) O["k"] = "outer";
    if (outer) O["of"] = fnKey(dyn_cast<FunctionDecl>(V->getParentFunctionOrMethod()));
    if (auto *AT = Ctx.getAsConstantArrayType(V->getType())) {
      O["asz"] = (int64_t)AT->getSize().getZExtValue();
      O["aet"] = ty(AT->getElementType());
    }
    S->varArr.push_back(std::move(O));
    return id;
  }

  void evalInto(json::Object &O, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    if (E->getType()->isIntegralOrEnumerationType() && !isa<InitListExpr>(E)) {
      Expr::EvalResult R;
      if (E->isPRValue() || E->isGLValue()) {
        if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
          auto &I = R.Val.getInt();
          if (I.isSigned() ? I.getSignificantBits() <= 63 : I.getActiveBits() <= 62)
            O["ev"] = I.isSigned() ? I.getSExtValue() : (int64_t)I.getZExtValue();
          else
            O["evbig"] = llvm::toString(I, 10);
        }
      }
    } else if (E->getType()->isPointerType()) {
      if (E->isNullPointerConstant(Ctx, Expr::NPC_ValueDependentIsNotNull) != Expr::NPCK_NotNull) O["nul"] = 1;
    }
  }

  int id(const Stmt *X0) {
    if (!X0) return -1;
    const Stmt *X = strip(X0);
    auto it = S->ids.find(X);
    int n;
    if (it != S->ids.end()) {
      n = it->second;
      addWrap(X0, n);
      return n;
    }
    n = (int)S->nodes.size();
    S->ids[X] = n;
    S->nodes.push_back(json::Object{});
    json::Object O = make(X);
    O["i"] = n;
    S->nodes[n] = std::move(O);
    addWrap(X0, n);
    return n;
  }
  // record wrapper information (lvalue-to-rvalue, integral conversions, upcasts) on the inner node
  void addWrap(const Stmt *X0, int n) {
    auto *O = S->nodes[n].getAsObject();
    if (!O) return;
    const Stmt *X = X0;
    json::Array ics;
    while (X) {
      if (auto *IC = dyn_cast<ImplicitCastExpr>(X)) {
        switch (IC->getCastKind()) {
        case CK_LValueToRValue: (*O)["rd"] = 1; break;
        case CK_NullToPointer: (*O)["nul"] = 1; break;
        case CK_ArrayToPointerDecay: (*O)["decay"] = 1; break;
        case CK_IntegralCast: case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_IntegralToFloating: case CK_FloatingToIntegral:
          ics.push_back(ty(IC->getType())); break;
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase: (*O)["up"] = ty(IC->getType()); break;
        default: break;
        }
        if (!O->get("ev") ) evalInto(*O, IC);
      }
      X = strip1(X);
    }
    if (!ics.empty() && !O->get("ic")) (*O)["ic"] = std::move(ics);
  }

  json::Array kids(const Stmt *X) {
    json::Array A;
    for (const Stmt *C : X->children()) if (C) A.push_back(id(C));
    return A;
  }

  void callInfo(json::Object &O, const FunctionDecl *FD) {
    if (!FD) return;
    O["callee"] = fnKey(FD);
    O["cn"] = fixUtf8(FD->getNameAsString());
    if (relFast(FD->getLocation()).empty()) O["ext"] = 1;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      O["ccls"] = recName(M->getParent());
      if (M->isStatic()) O["cstatic"] = 1;
      if (M->isConst()) O["cconst"] = 1;
    }
    json::Array pt;
    for (auto *P : FD->parameters()) pt.push_back(ty(P->getType()));
    O["pt"] = std::move(pt);
  }

  json::Object make(const Stmt *X) {
    json::Object O;
    O["k"] = X->getStmtClassName();
    O["l"] = lineOf(X->getBeginLoc());
    { std::string f = relFast(X->getBeginLoc()); if (f != S->file) O["f"] = f; }
    if (auto *E = dyn_cast<Expr>(X)) {
      O["t"] = ty(E->getType());
      evalInto(O, E);
      if (E->isLValue()) O["lv"] = 1;
    }
    if (auto *D = dyn_cast<DeclRefExpr>(X)) {
      const ValueDecl *VD = D->getDecl();
      O["l"] = lineOf(D->getLocation());
      if (auto *V = dyn_cast<VarDecl>(VD)) {
        if (V->hasGlobalStorage()) { O["dk"] = "global"; O["g"] = globKey(V); noteGlobal(V); }
        else { O["dk"] = "var"; O["v"] = varId(V); }
        O["n"] = V->getNameAsString();
      } else if (auto *F = dyn_cast<FunctionDecl>(VD)) {
        O["dk"] = "func"; O["fn"] = fnKey(F); O["n"] = fixUtf8(F->getNameAsString());
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(VD)) {
        O["dk"] = "enum"; O["n"] = qname(EC);
      } else if (auto *B = dyn_cast<BindingDecl>(VD)) {
        O["dk"] = "binding"; O["n"] = B->getNameAsString();
      } else { O["dk"] = "other"; O["n"] = fixUtf8(VD->getNameAsString()); }
      return O;
    }
    if (auto *M = dyn_cast<MemberExpr>(X)) {
      O["l"] = lineOf(M->getMemberLoc());
      if (auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        std::string cn;
        if (auto *CR = dyn_cast<CXXRecordDecl>(FD->getParent())) cn = recName(CR); else cn = qname(FD->getParent());
        O["m"] = cn + "::" + FD->getNameAsString();
        O["mn"] = FD->getNameAsString();
        O["mk"] = "field";
      } else if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        O["m"] = globKey(V); O["mk"] = "global"; O["g"] = globKey(V); O["dk"] = "global"; noteGlobal(V);
      } else if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) {
        O["m"] = fnKey(F); O["mk"] = "method"; O["fn"] = fnKey(F);
      }
      if (M->isArrow()) O["arrow"] = 1;
      O["base"] = id(M->getBase());
      O["c"] = kids(X);
      return O;
    }
    if (auto *L = dyn_cast<StringLiteral>(X)) {
      if (L->getCharByteWidth() == 1) O["s"] = fixUtf8(L->getString());
      else {
        json::Array A;
        for (unsigned i = 0; i < L->getLength(); i++) A.push_back((int64_t)L->getCodeUnit(i));
        O["w"] = std::move(A);
      }
      return O;
    }
    if (auto *L = dyn_cast<CharacterLiteral>(X)) { O["ev"] = (int64_t)L->getValue(); return O; }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(X)) { O["ev"] = L->getValue() ? 1 : 0; return O; }
    if (auto *B = dyn_cast<BinaryOperator>(X)) {
      O["op"] = B->getOpcodeStr().str();
      O["l"] = lineOf(B->getBeginLoc());
      O["lhs"] = id(B->getLHS()); O["rhs"] = id(B->getRHS());
      O["c"] = kids(X);
      return O;
    }
    if (auto *U = dyn_cast<UnaryOperator>(X)) {
      O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) O["post"] = 1;
      O["sub"] = id(U->getSubExpr());
      O["c"] = kids(X);
      return O;
    }
    if (auto *C = dyn_cast<CallExpr>(X)) {
      const FunctionDecl *FD = C->getDirectCallee();
      callInfo(O, FD);
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
        O["obj"] = id(MC->getImplicitObjectArgument());
        if (auto *MD = MC->getMethodDecl()) {
          bool v = MD->isVirtual();
          if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) if (ME->hasQualifier()) v = false;
          if (v) O["virt"] = 1;
        }
      } 
      json::Array A;
      unsigned from = 0;
      if (isa<CXXOperatorCallExpr>(X) && FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) { O["obj"] = id(C->getArg(0)); from = 1; }
      for (unsigned i = from; i < C->getNumArgs(); i++) A.push_back(id(C->getArg(i)));
      O["args"] = std::move(A);
      O["fnx"] = id(C->getCallee());
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) O["op"] = getOperatorSpelling(OC->getOperator());
      O["c"] = kids(X);
      return O;
    }
    if (auto *C = dyn_cast<CXXConstructExpr>(X)) {
      callInfo(O, C->getConstructor());
      json::Array A;
      for (unsigned i = 0; i < C->getNumArgs(); i++) A.push_back(id(C->getArg(i)));
      O["args"] = std::move(A);
      O["c"] = kids(X);
      if (C->getConstructor()->isCopyOrMoveConstructor()) O["copy"] = 1;
      if (C->getConstructor()->isImplicit()) O["implicit"] = 1;
      if (C->requiresZeroInitialization()) O["zero"] = 1;
      return O;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(X)) {
      O["array"] = N->isArray() ? 1 : 0;
      O["at"] = ty(N->getAllocatedType());
      if (N->isArray() && N->getArraySize()) O["size"] = id(*N->getArraySize());
      if (N->getInitializer()) O["init"] = id(N->getInitializer());
      if (N->getConstructExpr()) O["ctor"] = id(N->getConstructExpr());
      if (N->getNumPlacementArgs()) { O["placement"] = (int)N->getNumPlacementArgs(); }
      O["c"] = kids(X);
      return O;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(X)) {
      O["array"] = D->isArrayForm() ? 1 : 0;
      O["arg"] = id(D->getArgument());
      if (!D->getDestroyedType().isNull()) {
        O["dt"] = ty(D->getDestroyedType());
        if (auto *R = D->getDestroyedType()->getAsCXXRecordDecl())
          if (R->hasDefinition() && R->getDestructor()) { O["dtor"] = fnKey(R->getDestructor()); if (R->getDestructor()->isVirtual()) O["virt"] = 1; }
      }
      O["c"] = kids(X);
      return O;
    }
    if (auto *C = dyn_cast<ExplicitCastExpr>(X)) {
      O["ck"] = C->getCastKindName();
      O["sub"] = id(C->getSubExpr());
      O["c"] = kids(X);
      return O;
    }
    if (auto *D = dyn_cast<CXXDefaultArgExpr>(X)) {
      json::Array A; A.push_back(id(D->getExpr())); O["c"] = std::move(A);
      return O;
    }
    if (auto *D = dyn_cast<CXXDefaultInitExpr>(X)) {
      json::Array A; A.push_back(id(D->getExpr())); O["c"] = std::move(A);
      return O;
    }
    if (auto *D = dyn_cast<DeclStmt>(X)) {
      json::Array A;
      for (auto *De : D->decls()) {
        if (auto *V = dyn_cast<VarDecl>(De)) {
          json::Object VO;
          if (V->isStaticLocal()) { VO["static"] = globKey(V); noteGlobal(V); }
          else VO["v"] = varId(V);
          VO["n"] = V->getNameAsString();
          VO["t"] = ty(V->getType());
          if (V->hasInit()) VO["init"] = id(V->getInit());
          A.push_back(std::move(VO));
        }
      }
      O["decls"] = std::move(A);
      O["c"] = kids(X);
      return O;
    }
    if (auto *I = dyn_cast<IfStmt>(X)) {
      if (I->getInit()) O["init"] = id(I->getInit());
      O["cond"] = id(I->getCond()); O["then"] = id(I->getThen());
      if (I->getElse()) O["else"] = id(I->getElse());
    } else if (auto *W = dyn_cast<WhileStmt>(X)) { O["cond"] = id(W->getCond()); O["body"] = id(W->getBody());
    } else if (auto *D = dyn_cast<DoStmt>(X)) { O["cond"] = id(D->getCond()); O["body"] = id(D->getBody());
    } else if (auto *F = dyn_cast<ForStmt>(X)) {
      if (F->getInit()) O["init"] = id(F->getInit());
      if (F->getCond()) O["cond"] = id(F->getCond());
      if (F->getInc()) O["inc"] = id(F->getInc());
      O["body"] = id(F->getBody());
    } else if (auto *F = dyn_cast<CXXForRangeStmt>(X)) {
      O["range"] = id(F->getRangeInit()); O["body"] = id(F->getBody());
      if (F->getLoopVariable()) O["loopvar"] = varId(F->getLoopVariable());
    } else if (auto *Sw = dyn_cast<SwitchStmt>(X)) { O["cond"] = id(Sw->getCond()); O["body"] = id(Sw->getBody());
    } else if (auto *C = dyn_cast<CaseStmt>(X)) { O["cv"] = id(C->getLHS()); O["sub"] = id(C->getSubStmt());
      if (auto *CE = dyn_cast<Expr>(C->getLHS())) { Expr::EvalResult R; if (CE->EvaluateAsInt(R, Ctx)) O["cval"] = R.Val.getInt().getExtValue(); }
    } else if (auto *R = dyn_cast<ReturnStmt>(X)) { if (R->getRetValue()) O["val"] = id(R->getRetValue());
    } else if (auto *T = dyn_cast<CXXThrowExpr>(X)) {
      if (T->getSubExpr()) { O["sub"] = id(T->getSubExpr()); QualType Q = T->getSubExpr()->getType(); O["tt"] = ty(Q.getUnqualifiedType()); }
    } else if (auto *T = dyn_cast<CXXTryStmt>(X)) {
      O["body"] = id(T->getTryBlock());
      json::Array H;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) H.push_back(id(T->getHandler(i)));
      O["handlers"] = std::move(H);
    } else if (auto *C = dyn_cast<CXXCatchStmt>(X)) {
      if (C->getExceptionDecl()) { O["v"] = varId(C->getExceptionDecl()); O["tt"] = ty(C->getCaughtType().getNonReferenceType().getUnqualifiedType()); }
      else O["tt"] = "...";
      O["body"] = id(C->getHandlerBlock());
    } else if (auto *C = dyn_cast<ConditionalOperator>(X)) {
      O["cond"] = id(C->getCond()); O["then"] = id(C->getTrueExpr()); O["else"] = id(C->getFalseExpr());
    } else if (auto *A = dyn_cast<ArraySubscriptExpr>(X)) {
      O["base"] = id(A->getBase()); O["idx"] = id(A->getIdx());
      if (auto *B = dyn_cast<ImplicitCastExpr>(A->getBase())) if (auto *AT = Ctx.getAsConstantArrayType(B->getSubExpr()->getType())) O["asz"] = (int64_t)AT->getSize().getZExtValue();
    } else if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
      O["trait"] = (int)U->getKind();
      if (U->isArgumentType()) O["argt"] = ty(U->getArgumentType());
    } else if (auto *L = dyn_cast<LambdaExpr>(X)) {
      O["lambda"] = fnKey(L->getCallOperator());
      json::Array caps;
      for (auto &C : L->captures()) {
        json::Object CO;
        if (C.capturesThis()) CO["this"] = 1;
        if (C.capturesVariable()) { if (auto *V = dyn_cast<VarDecl>(C.getCapturedVar())) { CO["v"] = varId(V); } CO["ref"] = C.getCaptureKind() == LCK_ByRef ? 1 : 0; }
        caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(caps);
      addFunction(L->getCallOperator());
      return O;
    } else if (auto *IL = dyn_cast<InitListExpr>(X)) {
      json::Array A;
      for (unsigned i = 0; i < IL->getNumInits(); i++) A.push_back(id(IL->getInit(i)));
      O["c"] = std::move(A);
      return O;
    }
    O["c"] = kids(X);
    return O;
  }

  json::Value initTree(const Expr *E0) {
    if (!E0) return nullptr;
    const Stmt *X = strip(E0);
    const Expr *E = cast<Expr>(X);
    if (auto *IL = dyn_cast<InitListExpr>(E)) {
      json::Array A;
      for (unsigned i = 0; i < IL->getNumInits(); i++) A.push_back(initTree(IL->getInit(i)));
      return json::Object{{"list", std::move(A)}};
    }
    if (auto *SL = dyn_cast<CXXStdInitializerListExpr>(E)) return initTree(SL->getSubExpr());
    if (auto *L = dyn_cast<StringLiteral>(E)) {
      if (L->getCharByteWidth() == 1) return json::Object{{"s", fixUtf8(L->getString())}};
      json::Array A;
      for (unsigned i = 0; i < L->getLength(); i++) A.push_back((int64_t)L->getCodeUnit(i));
      return json::Object{{"w", std::move(A)}};
    }
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      json::Object O{{"ref", qname(D->getDecl())}};
      if (!E->isValueDependent()) evalInto(O, E0);
      return O;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      json::Object O{{"new", ty(N->getAllocatedType())}};
      if (N->getInitializer()) O["init"] = initTree(N->getInitializer());
      return O;
    }
    if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
      json::Array A;
      for (unsigned i = 0; i < C->getNumArgs(); i++) A.push_back(initTree(C->getArg(i)));
      return json::Object{{"ctor", fnKey(C->getConstructor())}, {"args", std::move(A)}};
    }
    json::Object O;
    O["k"] = E->getStmtClassName();
    if (!E->isValueDependent()) evalInto(O, E0);
    if (auto *U = dyn_cast<UnaryOperator>(E)) O["sub"] = initTree(U->getSubExpr());
    if (auto *C = dyn_cast<CastExpr>(E)) O["sub"] = initTree(C->getSubExpr());
    if (auto *C = dyn_cast<CallExpr>(E)) { if (C->getDirectCallee()) O["callee"] = fnKey(C->getDirectCallee()); }
    return O;
  }

  void noteGlobal(const VarDecl *V0) {
    const VarDecl *V = V0->getDefinition(Ctx);
    if (!V) V = V0->getInitializingDeclaration() ? V0->getInitializingDeclaration() : V0;
    std::string K = globKey(V0);
    bool def = V->hasInit() || V->isThisDeclarationADefinition(Ctx);
    if (!seenGlob.insert(K + (def ? "#d" : "")).second) return;
    json::Object O;
    O["key"] = K;
    O["n"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["file"] = relFast(V->getLocation());
    O["line"] = lineOf(V->getLocation());
    QualType T = Ctx.getBaseElementType(V->getType());
    bool isConst = T.isConstQualified();
    if (T->isReferenceType()) isConst = true;
    O["const"] = isConst;
    if (T->isPointerType()) O["pconst"] = T->getPointeeType().isConstQualified();
    O["static_local"] = V->isStaticLocal();
    O["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    O["class_static"] = V->isStaticDataMember();
    if (auto *R = T->getAsCXXRecordDecl()) { if (R->hasDefinition()) { O["rec"] = recName(R); O["hasmutable"] = R->hasMutableFields(); O["trivdtor"] = R->hasTrivialDestructor(); } }
    if (auto *AT = Ctx.getAsConstantArrayType(V->getType())) O["asz"] = (int64_t)AT->getSize().getZExtValue();
    if (V->hasInit() && !relFast(V->getLocation()).empty()) O["init"] = initTree(V->getInit());
    O["def"] = def;
    globals.push_back(std::move(O));
  }

  void addFunction(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || !Def) return;
    if (Def->isDependentContext()) return;
    if (Def->isDefaulted() && !Def->doesThisDeclarationHaveABody()) return;
    std::string file = relFast(Def->getLocation());
    if (file.empty()) return;
    std::string K = fnKey(Def);
    if (!seenFn.insert(K).second) return;
    FnState NS;
    NS.file = file;
    NS.F = Def;
    FnState *Save = S;
    S = &NS;
    json::Object O;
    O["key"] = K;
    fillDecl(O, Def);
    json::Array ps;
    for (auto *P : Def->parameters()) ps.push_back(varId(P));
    O["params"] = std::move(ps);
    json::Array inits;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(Def)) {
      for (auto *I : CD->inits()) {
        json::Object IO;
        if (I->isMemberInitializer()) {
          auto *FD = I->getMember();
          IO["m"] = recName(cast<CXXRecordDecl>(FD->getParent())) + "::" + FD->getNameAsString();
          IO["mt"] = ty(FD->getType());
        } else if (I->isBaseInitializer()) IO["basecls"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) IO["deleg"] = 1;
        IO["written"] = I->isWritten();
        IO["e"] = id(I->getInit());
        inits.push_back(std::move(IO));
      }
    }
    O["inits"] = std::move(inits);
    O["body"] = id(Def->getBody());
    // CFG
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.AddTemporaryDtors = false;
    BO.AddEHEdges = false;
    BO.AddCXXNewAllocator = false;
    BO.AddStaticInitBranches = false;
    std::unique_ptr<CFG> G = CFG::buildCFG(Def, Def->getBody(), &Ctx, BO);
    if (G) {
      json::Array blocks;
      for (CFGBlock *B : *G) {
        json::Object BO2;
        BO2["id"] = (int)B->getBlockID();
        json::Array el;
        for (auto &E : *B) {
          if (auto CS = E.getAs<CFGStmt>()) {
            const Stmt *st = CS->getStmt();
            if (strip(st) != st) continue;
            el.push_back(id(st));
          } else if (auto CI = E.getAs<CFGInitializer>()) {
            json::Object I;
            auto *In = CI->getInitializer();
            if (In->isMemberInitializer()) {
              I["minit"] = recName(cast<CXXRecordDecl>(In->getMember()->getParent())) + "::" + In->getMember()->getNameAsString();
            } else I["binit"] = 1;
            I["e"] = id(In->getInit());
            el.push_back(std::move(I));
          } else if (auto AD = E.getAs<CFGAutomaticObjDtor>()) {
            json::Object I;
            I["dtor"] = varId(AD->getVarDecl());
            if (auto *DD = AD->getDestructorDecl(Ctx)) I["fn"] = fnKey(DD);
            el.push_back(std::move(I));
          }
        }
        BO2["e"] = std::move(el);
        if (const Stmt *T = B->getTerminatorStmt()) BO2["term"] = id(T);
        if (const Stmt *C = B->getTerminatorCondition()) BO2["cond"] = id(C);
        if (const Stmt *L = B->getLabel()) BO2["label"] = id(L);
        if (const Stmt *L = B->getLoopTarget()) BO2["loop"] = id(L);
        if (B->hasNoReturnElement()) BO2["noreturn"] = 1;
        json::Array su;
        for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
          if (const CFGBlock *R = I->getReachableBlock()) su.push_back((int)R->getBlockID());
          else su.push_back(nullptr);
        }
        BO2["s"] = std::move(su);
        blocks.push_back(std::move(BO2));
      }
      O["entry"] = (int)G->getEntry().getBlockID();
      O["exit"] = (int)G->getExit().getBlockID();
      json::Array tb;
      for (auto I = G->try_blocks_begin(); I != G->try_blocks_end(); ++I) tb.push_back((int)(*I)->getBlockID());
      O["tryblocks"] = std::move(tb);
      O["cfg"] = std::move(blocks);
    }
    O["vars"] = std::move(NS.varArr);
    O["nodes"] = std::move(NS.nodes);
    S = Save;
    functions.push_back(std::move(O));
  }

  void fillDecl(json::Object &O, const FunctionDecl *F) {
    O["n"] = fixUtf8(F->getNameAsString());
    O["q"] = qname(F);
    O["file"] = relFast(F->getLocation());
    O["line"] = lineOf(F->getLocation());
    O["endline"] = lineOf(F->getEndLoc());
    O["ret"] = ty(F->getReturnType());
    O["externC"] = F->isExternC();
    O["internal"] = F->getFormalLinkage() == Linkage::Internal;
    bool vis = false;
    for (auto *R : F->redecls()) if (auto *VA = R->getAttr<VisibilityAttr>()) if (VA->getVisibility() == VisibilityAttr::Default) vis = true;
    O["exported"] = vis;
    O["variadic"] = F->isVariadic();
    json::Array pt, pn, ptw;
    for (auto *P : F->parameters()) { pt.push_back(ty(P->getType())); pn.push_back(P->getNameAsString()); ptw.push_back(P->getType().getAsString(PP)); }
    O["pt"] = std::move(pt);
    O["pn"] = std::move(pn);
    O["ptw"] = std::move(ptw);
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) { auto E = FPT->getExceptionSpecType(); O["noexcept"] = E == EST_BasicNoexcept || E == EST_NoexceptTrue || E == EST_DynamicNone; }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      O["static"] = M->isStatic();
      O["virt"] = M->isVirtual();
      O["pure"] = M->isPureVirtual();
      O["const"] = M->isConst();
      O["ctor"] = isa<CXXConstructorDecl>(M);
      O["dtor"] = isa<CXXDestructorDecl>(M);
      O["implicit"] = M->isImplicit();
      O["access"] = (int)M->getAccess();
      json::Array ov;
      for (auto *X : M->overridden_methods()) ov.push_back(fnKey(X));
      O["over"] = std::move(ov);
      if (M->getParent()->isLambda()) O["lambda"] = 1;
    }
  }

  void addDecl(const FunctionDecl *F) {
    if (relFast(F->getLocation()).empty()) return;
    if (F->isDependentContext()) return;
    std::string K = fnKey(F);
    if (!seenDecl.insert(K + "@" + relFast(F->getLocation())).second) return;
    json::Object O;
    O["key"] = K;
    fillDecl(O, F);
    O["body"] = F->hasBody();
    decls.push_back(std::move(O));
  }

  void addRecord(const CXXRecordDecl *R) {
    if (!R->isCompleteDefinition() || R->isDependentType()) return;
    if (relFast(R->getLocation()).empty()) return;
    std::string N = recName(R);
    if (!seenRec.insert(N).second) return;
    json::Object O;
    O["n"] = N;
    O["file"] = relFast(R->getLocation());
    O["line"] = lineOf(R->getLocation());
    O["pod"] = R->isTriviallyCopyable();
    O["abstract"] = R->isAbstract();
    json::Array bs;
    for (auto &B : R->bases()) bs.push_back(ty(B.getType()));
    O["bases"] = std::move(bs);
    json::Array fs;
    const ASTRecordLayout *Lay = R->isInvalidDecl() ? nullptr : &Ctx.getASTRecordLayout(R);
    if (Lay) O["size"] = (int64_t)Lay->getSize().getQuantity();
    unsigned i = 0;
    for (auto *F : R->fields()) {
      json::Object FO;
      FO["n"] = F->getNameAsString();
      FO["q"] = N + "::" + F->getNameAsString();
      FO["t"] = ty(F->getType());
      FO["tw"] = F->getType().getAsString(PP);
      FO["l"] = lineOf(F->getLocation());
      FO["const"] = F->getType().isConstQualified();
      FO["mutable"] = F->isMutable();
      FO["access"] = (int)F->getAccess();
      FO["hasinit"] = F->hasInClassInitializer();
      if (F->isBitField()) FO["bits"] = (int)F->getBitWidthValue(Ctx);
      if (Lay) FO["off"] = (int64_t)Lay->getFieldOffset(i);
      if (!F->getType()->isIncompleteType() && !F->getType()->isReferenceType()) FO["sz"] = (int64_t)Ctx.getTypeSizeInChars(F->getType()).getQuantity();
      if (auto *AT = Ctx.getAsConstantArrayType(F->getType())) { FO["asz"] = (int64_t)AT->getSize().getZExtValue(); }
      fs.push_back(std::move(FO));
      i++;
    }
    O["fields"] = std::move(fs);
    O["userctor"] = R->hasUserProvidedDefaultConstructor();
    json::Array ms;
    for (auto *M : R->methods()) if (!M->isImplicit()) ms.push_back(fnKey(M));
    O["methods"] = std::move(ms);
    if (auto *D = R->getDestructor()) { O["dtor"] = fnKey(D); O["vdtor"] = D->isVirtual(); O["udtor"] = D->isUserProvided(); O["ddel"] = D->isDeleted(); }
    json::Array cc;
    for (auto *C : R->ctors()) if (C->isCopyOrMoveConstructor() && !C->isImplicit()) cc.push_back(json::Object{{"key", fnKey(C)}, {"deleted", C->isDeleted()}, {"access", (int)C->getAccess()}});
    O["copyctors"] = std::move(cc);
    records.push_back(std::move(O));
  }
  void addEnum(const EnumDecl *E) {
    if (!E->isCompleteDefinition() || relFast(E->getLocation()).empty()) return;
    std::string N = qname(E);
    json::Object O;
    O["file"] = relFast(E->getLocation());
    O["line"] = lineOf(E->getLocation());
    O["n"] = N;
    json::Array A;
    for (auto *C : E->enumerators()) A.push_back(json::Object{{"n", C->getNameAsString()}, {"v", C->getInitVal().getExtValue()}});
    O["c"] = std::move(A);
    enums.push_back(std::move(O));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Ser &S;
  explicit Visitor(Ser &S) : S(S) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true; // handled at the LambdaExpr
    S.addDecl(F);
    if (F->isThisDeclarationADefinition()) S.addFunction(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { S.addRecord(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { S.addEnum(E); return true; }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && !V->getDeclContext()->isDependentContext() && !S.relFast(V->getLocation()).empty()) S.noteGlobal(V);
    return true;
  }
};

json::Array Macros;

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  explicit Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    json::Object O;
    O["errors"] = (int)CI.getDiagnostics().getClient()->getNumErrors();
    Ser S(C);
    if (!CI.getDiagnostics().hasErrorOccurred()) {
      Visitor V(S);
      V.TraverseDecl(C.getTranslationUnitDecl());
      // macros defined in files under the root
      auto &PP = CI.getPreprocessor();
      json::Array ms;
      for (auto I = PP.macro_begin(); I != PP.macro_end(); ++I) {
        auto *MI = PP.getMacroInfo(I->first);
        if (!MI || MI->isBuiltinMacro()) continue;
        std::string f = S.relFast(MI->getDefinitionLoc());
        if (f.empty()) continue;
        std::string body;
        for (auto &T : MI->tokens()) { if (!body.empty()) body += " "; body += PP.getSpelling(T); }
        ms.push_back(json::Object{{"n", I->first->getName().str()}, {"body", fixUtf8(body)}, {"file", f}, {"line", S.lineOf(MI->getDefinitionLoc())}, {"fl", MI->isFunctionLike()}});
      }
      O["macros"] = std::move(ms);
    }
    O["functions"] = std::move(S.functions);
    O["records"] = std::move(S.records);
    O["enums"] = std::move(S.enums);
    O["globals"] = std::move(S.globals);
    O["decls"] = std::move(S.decls);
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    OS << json::Value(std::move(O));
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
struct Factory : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
} // namespace

int main(int argc, const char **argv) {
  std::vector<std::string> src, args;
  bool after = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (after) args.push_back(a);
    else if (a == "--") after = true;
    else if (a.rfind("--root=", 0) == 0) Root = a.substr(7);
    else if (a.rfind("--out=", 0) == 0) Out = a.substr(6);
    else src.push_back(a);
  }
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, src);
  Factory F;
  return T.run(&F);
}
