// refac: applies one behaviour-preserving rewrite everywhere in a source file (self-test of the checks against false alarms).
// usage: refac MODE SRC -- clang args      rewritten text goes to stdout, insertions for headers to stderr as "HDR file offset text"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/QualTypeNames.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Rewrite/Core/Rewriter.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include <set>
using namespace clang;
static std::string Mode;
struct HasContinue : RecursiveASTVisitor<HasContinue> {
  bool hit = false;
  bool VisitContinueStmt(ContinueStmt *) { hit = true; return true; }
};
struct HasDecl : RecursiveASTVisitor<HasDecl> {
  bool hit = false;
  bool VisitDeclStmt(DeclStmt *) { hit = true; return true; }
};
struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM; Rewriter &R; int n = 0; FunctionDecl *cur = nullptr;
  V(ASTContext &C, Rewriter &R) : C(C), SM(C.getSourceManager()), R(R) {}
  bool shouldTraversePostOrder() const { return true; }
  bool main(SourceLocation l) { return l.isValid() && !l.isMacroID() && SM.isInMainFile(l); }
  bool ok(const Stmt *s) { return s && main(s->getBeginLoc()) && main(s->getEndLoc()); }
  std::string text(const Stmt *s) { return R.getRewrittenText(CharSourceRange::getTokenRange(s->getSourceRange())); }
  bool macro(const Stmt *s) {
    if (!s) return false;
    if (s->getBeginLoc().isMacroID() || s->getEndLoc().isMacroID()) return true;
    for (const Stmt *c : s->children()) if (c && macro(c)) return true;
    return false;
  }
  void rep(const Stmt *s, const std::string &t) { R.ReplaceText(CharSourceRange::getTokenRange(s->getSourceRange()), t); n++; }
  bool inCompound(const Stmt *s) { auto p = C.getParents(*s); return !p.empty() && p[0].get<CompoundStmt>(); }
  std::string body(const Stmt *s) { std::string t = text(s); if (isa<CompoundStmt>(s)) return t; return "{ " + t + "; }"; }
  bool TraverseFunctionDecl(FunctionDecl *f) { auto o = cur; cur = f; bool r = RecursiveASTVisitor::TraverseFunctionDecl(f); cur = o; return r; }
  bool TraverseCXXMethodDecl(CXXMethodDecl *f) { auto o = cur; cur = f; bool r = RecursiveASTVisitor::TraverseCXXMethodDecl(f); cur = o; return r; }

  bool VisitReturnStmt(ReturnStmt *r) {
    if (Mode != "ret" || !ok(r) || !cur || !r->getRetValue() || macro(r)) return true;
    QualType t = cur->getReturnType();
    if (t->isVoidType() || t->isReferenceType() || t->isRecordType() || t->isDependentType()) return true;
    Expr *e = r->getRetValue()->IgnoreParenImpCasts();
    if (isa<IntegerLiteral>(e) || isa<DeclRefExpr>(e) || isa<CXXBoolLiteralExpr>(e)) return true;
    rep(r, "{ " + t.getAsString(C.getPrintingPolicy()) + " retv_ = " + text(r->getRetValue()) + "; return retv_; }");
    return true;
  }
  bool VisitIfStmt(IfStmt *s) {
    if (!ok(s) || s->getConditionVariable() || s->getInit() || macro(s->getCond())) return true;
    if (Mode == "ifswap" && s->getElse()) {
      rep(s, "if (!(" + text(s->getCond()) + ")) " + body(s->getElse()) + " else " + body(s->getThen()));
    } else if (Mode == "cond" && inCompound(s)) {
      Expr *e = s->getCond()->IgnoreParenImpCasts();
      if (isa<DeclRefExpr>(e)) return true;
      std::string v = "cnd" + std::to_string(n) + "_";
      std::string t = "const bool " + v + " = (" + text(s->getCond()) + ");\n\t";
      R.ReplaceText(CharSourceRange::getTokenRange(s->getCond()->getSourceRange()), v);
      R.InsertTextBefore(s->getBeginLoc(), t);
      n++;
    } else if (Mode == "andsplit" && !s->getElse()) {
      auto *b = dyn_cast<BinaryOperator>(s->getCond()->IgnoreParenImpCasts());
      if (b && b->getOpcode() == BO_LAnd && !s->getCond()->getBeginLoc().isMacroID())
        rep(s, "if (" + text(b->getLHS()) + ") { if (" + text(b->getRHS()) + ") " + body(s->getThen()) + " }");
    }
    return true;
  }
  static bool ends(const Stmt *s) {
    if (auto *c = dyn_cast<CompoundStmt>(s)) return !c->body_empty() && ends(c->body_back());
    return isa<ReturnStmt>(s) || isa<BreakStmt>(s) || isa<ContinueStmt>(s);
  }
  bool VisitCompoundStmt(CompoundStmt *c) {
    if (Mode != "elserest" || !ok(c)) return true;
    auto b = c->body_begin();
    for (; b != c->body_end(); ++b) {
      auto *s = dyn_cast<IfStmt>(*b);
      if (s && !s->getElse() && ends(s->getThen()) && isa<CompoundStmt>(s->getThen()) && b + 1 != c->body_end()) {
        // the rest must not be reached by labels
        bool lab = false;
        for (auto k = b + 1; k != c->body_end(); ++k) if (isa<SwitchCase>(*k) || isa<LabelStmt>(*k)) lab = true;
        if (lab || !main((*(b + 1))->getBeginLoc())) continue;
        auto p = C.getParents(*c);
        if (!p.empty() && p[0].get<SwitchStmt>()) continue;
        R.InsertTextAfterToken(s->getThen()->getEndLoc(), " else {");
        R.InsertTextBefore(c->getRBracLoc(), "}\n");
        n++;
        break;
      }
    }
    return true;
  }
  bool VisitForStmt(ForStmt *f) {
    if (Mode != "forwhile" || !ok(f) || !f->getCond() || f->getConditionVariable() || macro(f->getCond()) || (f->getInc() && macro(f->getInc()))) return true;
    HasContinue h; h.TraverseStmt(f->getBody());
    if (h.hit) return true;
    std::string init = f->getInit() ? text(f->getInit()) : "";
    if (!init.empty() && init.back() != ';') init += ";";
    rep(f, "{ " + init + " while (" + text(f->getCond()) + ") { " + body(f->getBody()) + " " + (f->getInc() ? text(f->getInc()) + ";" : "") + " } }");
    return true;
  }
  bool VisitWhileStmt(WhileStmt *w) {
    if (Mode != "whiletrue" || !ok(w) || w->getConditionVariable() || macro(w->getCond())) return true;
    Expr *e = w->getCond()->IgnoreParenImpCasts();
    if (isa<CXXBoolLiteralExpr>(e) || isa<IntegerLiteral>(e)) return true;
    rep(w, "for (;;) { if (!(" + text(w->getCond()) + ")) { break; } " + body(w->getBody()) + " }");
    return true;
  }
  bool VisitUnaryOperator(UnaryOperator *u) {
    if (!ok(u) || macro(u)) return true;
    if (Mode == "incr" && u->isIncrementDecrementOp()) {
      auto p = C.getParents(*u);
      if (p.empty()) return true;
      const Stmt *ps = p[0].get<Stmt>();
      bool stmt = ps && (isa<CompoundStmt>(ps) || isa<ForStmt>(ps));
      if (auto *f = dyn_cast_or_null<ForStmt>(ps)) stmt = f->getInc() == u;
      if (stmt) rep(u, text(u->getSubExpr()) + (u->isIncrementOp() ? " += 1" : " -= 1"));
    }
    if (Mode == "nullcmp" && u->getOpcode() == UO_LNot && u->getSubExpr()->IgnoreParenImpCasts()->getType()->isPointerType())
      rep(u, "(" + text(u->getSubExpr()) + " == 0)");
    return true;
  }
  bool VisitBinaryOperator(BinaryOperator *b) {
    if (Mode != "eqswap" || !ok(b) || macro(b)) return true;
    const char *o = nullptr;
    switch (b->getOpcode()) {
      case BO_EQ: o = "=="; break; case BO_NE: o = "!="; break; case BO_LT: o = ">"; break;
      case BO_GT: o = "<"; break; case BO_LE: o = ">="; break; case BO_GE: o = "<="; break; default: return true;
    }
    if (b->getLHS()->HasSideEffects(C) && b->getRHS()->HasSideEffects(C)) return true;
    auto par = [&](Expr *e) { std::string t = text(e); e = e->IgnoreImpCasts(); return isa<BinaryOperator>(e) || isa<ConditionalOperator>(e) ? "(" + t + ")" : t; };
    rep(b, par(b->getRHS()) + " " + o + " " + par(b->getLHS()));
    return true;
  }
  bool VisitDeclStmt(DeclStmt *d) {
    if (Mode != "declsplit" || !ok(d) || !d->isSingleDecl() || !inCompound(d)) return true;
    auto *v = dyn_cast<VarDecl>(d->getSingleDecl());
    if (!v || !v->hasInit() || v->isStaticLocal() || v->getType().isConstQualified() || v->getType()->isReferenceType() || !v->getType()->isScalarType() || macro(v->getInit())) return true;
    if (v->getInitStyle() != VarDecl::CInit) return true;
    if (v->getType()->getContainedAutoType()) return true;
    rep(d, v->getType().getAsString(C.getPrintingPolicy()) + " " + v->getNameAsString() + "; " + v->getNameAsString() + " = " + text(v->getInit()) + ";");
    return true;
  }
  // renaming of locals and parameters of definitions
  bool VisitVarDecl(VarDecl *v) {
    if (Mode != "rename" || !v->isLocalVarDeclOrParm() || !main(v->getLocation()) || v->getName().empty()) return true;
    if (auto *p = dyn_cast<ParmVarDecl>(v)) { auto *f = dyn_cast<FunctionDecl>(p->getDeclContext()); if (!f || !f->isThisDeclarationADefinition()) return true; }
    R.InsertTextAfterToken(v->getLocation(), "Rn"); n++;
    return true;
  }
  bool VisitDeclRefExpr(DeclRefExpr *e) {
    if (Mode != "rename") return true;
    auto *v = dyn_cast<VarDecl>(e->getDecl());
    if (!v || !v->isLocalVarDeclOrParm() || !main(e->getLocation()) || !main(v->getLocation())) return true;
    R.InsertTextAfterToken(e->getLocation(), "Rn"); n++;
    return true;
  }
  // conditional operator to if: T x = c ? a : b;
  bool VisitConditionalOperator(ConditionalOperator *c) {
    if (Mode != "ternary" || !ok(c) || macro(c)) return true;
    rep(c, "(!(" + text(c->getCond()) + ") ? " + text(c->getFalseExpr()) + " : " + text(c->getTrueExpr()) + ")");
    return true;
  }
  // call arguments into locals
  bool VisitCallExpr(CallExpr *e) {
    if (Mode != "callres" || !ok(e) || macro(e) || isa<CXXOperatorCallExpr>(e)) return true;
    auto p = C.getParents(*e);
    if (p.empty()) return true;
    return true;
  }
  // delegation of the whole body to a helper
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (Mode == "noop" && f->isThisDeclarationADefinition() && f->hasBody() && main(f->getLocation()) && isa<CompoundStmt>(f->getBody()) && ok(f->getBody()) && !f->isConstexpr()) {
      R.InsertTextAfterToken(f->getBody()->getBeginLoc(), " int unused_ = 0; (void) unused_; "); n++;
    }
    if (Mode != "delegate" || !f->isThisDeclarationADefinition() || !f->hasBody() || !main(f->getLocation()) || f->isTemplated() || f->isMain()) return true;
    if (!ok(f->getBody()) || !isa<CompoundStmt>(f->getBody()) || f->isOverloadedOperator() || f->isVariadic()) return true;
    if (isa<CXXConstructorDecl>(f) || isa<CXXDestructorDecl>(f) || isa<CXXConversionDecl>(f)) return true;
    if (cast<CompoundStmt>(f->getBody())->size() < 3 || f->isInlined() || f->isInAnonymousNamespace()) return true;
    std::string ps, as;
    for (auto *p : f->parameters()) {
      if (p->getName().empty() || p->getBeginLoc().isMacroID()) return true;
      if (!ps.empty()) { ps += ", "; as += ", "; }
      QualType pt = p->getType();
      if (pt->isFunctionPointerType()) return true;
      ps += TypeName::getFullyQualifiedName(pt, C, C.getPrintingPolicy()) + " " + p->getNameAsString();
      as += p->getNameAsString();
    }
    auto *m = dyn_cast<CXXMethodDecl>(f);
    std::string rt = TypeName::getFullyQualifiedName(f->getReturnType(), C, C.getPrintingPolicy()), nm = f->getNameAsString() + "Impl_";
    std::string cls, cst;
    if (m) {
      const FunctionDecl *cd = m->getCanonicalDecl();
      if (cd == f) return true;
      SourceLocation l = Lexer::getLocForEndOfToken(cd->getSourceRange().getEnd(), 0, SM, C.getLangOpts());
      // after the semicolon of the declaration
      auto fid = SM.getFileID(cd->getLocation());
      StringRef buf = SM.getBufferData(fid);
      unsigned off = SM.getFileOffset(cd->getSourceRange().getEnd());
      while (off < buf.size() && buf[off] != ';') off++;
      cst = m->isConst() ? " const" : "";
      llvm::errs() << "HDR\t" << SM.getFilename(cd->getLocation()) << "\t" << off + 1 << "\t " << (m->isStatic() ? "static " : "") << rt << " " << nm << "(" << ps << ")" << cst << ";\n";
      cls = m->getParent()->getNameAsString() + "::";
    }
    std::string head = (m ? rt + " " + cls : "static " + rt + " ") + nm + "(" + ps + ")" + cst + " " + text(f->getBody()) + "\n\n";
    SourceLocation b = f->getBeginLoc();
    if (b.isMacroID()) b = SM.getExpansionLoc(b);
    if (auto *t = f->getDescribedFunctionTemplate()) return true;
    // extern "C" functions: the helper goes before the declaration
    R.ReplaceText(CharSourceRange::getTokenRange(f->getBody()->getSourceRange()), std::string("{\n\t") + (f->getReturnType()->isVoidType() ? "" : "return ") + nm + "(" + as + ");\n}");
    R.InsertTextBefore(b, head);
    n++;
    return true;
  }
};
struct A : ASTFrontendAction {
  Rewriter R;
  struct Co : ASTConsumer {
    Rewriter &R; Co(Rewriter &R) : R(R) {}
    void HandleTranslationUnit(ASTContext &C) override {
      V v(C, R); v.TraverseDecl(C.getTranslationUnitDecl());
      llvm::errs() << "COUNT\t" << v.n << "\n";
    }
  };
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { R.setSourceMgr(CI.getSourceManager(), CI.getLangOpts()); return std::make_unique<Co>(R); }
  void EndSourceFileAction() override { R.getEditBuffer(R.getSourceMgr().getMainFileID()).write(llvm::outs()); }
};
int main(int argc, char **argv) {
  Mode = argv[1];
  std::string src = argv[2];
  std::vector<std::string> args;
  for (int i = 4; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool t(db, {src});
  return t.run(tooling::newFrontendActionFactory<A>().get());
}
