// Behaviour-preserving source rewriting, used to test that the checks stay quiet on refactored code.
// refactor MODE OUTFILE SEED PERCENT -- flags -- file.cpp
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Rewrite/Core/Rewriter.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include <fstream>
#include <random>
using namespace clang;
static std::string Mode, Out; static unsigned Pct = 100; static std::mt19937 Rng; static int N = 0, Applied = 0;

struct HasJump : RecursiveASTVisitor<HasJump> {
  bool ret = false, brk = false, cont = false, other = false; int depth = 0;
  bool VisitReturnStmt(ReturnStmt *) { ret = true; return true; }
  bool VisitBreakStmt(BreakStmt *) { brk = true; return true; }
  bool VisitContinueStmt(ContinueStmt *) { cont = true; return true; }
  bool VisitGotoStmt(GotoStmt *) { other = true; return true; }
  bool VisitLambdaExpr(LambdaExpr *) { return true; }
  bool any() const { return ret || brk || cont || other; }
};
static HasJump jumps(Stmt *s) { HasJump h; h.TraverseStmt(s); return h; }

class V : public RecursiveASTVisitor<V> {
  ASTContext &C; Rewriter &R; SourceManager &SM; std::vector<std::pair<unsigned, unsigned>> used; const FunctionDecl *cur = nullptr;
public:
  V(ASTContext &c, Rewriter &r) : C(c), R(r), SM(c.getSourceManager()) {}
  bool here(SourceRange r) { return r.getBegin().isFileID() && r.getEnd().isFileID() && SM.isInMainFile(r.getBegin()) && SM.isInMainFile(r.getEnd()); }
  std::string text(SourceRange r) { return Lexer::getSourceText(CharSourceRange::getTokenRange(r), SM, C.getLangOpts()).str(); }
  unsigned off(SourceLocation l) { return SM.getFileOffset(l); }
  unsigned endoff(SourceLocation l) { return SM.getFileOffset(Lexer::getLocForEndOfToken(l, 0, SM, C.getLangOpts())); }
  bool claim(SourceRange r, bool semi = false) {
    if (!here(r) || text(r).empty()) return false;
    unsigned a = off(r.getBegin()), b = endoff(r.getEnd());
    for (auto &u : used) if (!(b <= u.first || u.second <= a)) return false;
    if (Rng() % 100 >= Pct) return false;
    used.push_back({a, b}); Applied++; return true;
  }
  bool inCompound(Stmt *s) { auto ps = C.getParents(*s); return ps.size() == 1 && ps[0].get<CompoundStmt>(); }
  bool simple(IfStmt *s) { return !s->getInit() && !s->getConditionVariable() && !s->isConstexpr() && here(s->getSourceRange()) && here(s->getCond()->getSourceRange()); }
  std::string nm(const char *p) { return std::string(p) + std::to_string(N++); }
  std::string body(Stmt *s) { std::string t = text(s->getSourceRange()); if (!isa<CompoundStmt>(s)) t = "{ " + t + "; }"; return t; }
  bool TraverseFunctionDecl(FunctionDecl *f) { auto o = cur; cur = f; bool r = RecursiveASTVisitor::TraverseFunctionDecl(f); cur = o; return r; }
  bool TraverseCXXMethodDecl(CXXMethodDecl *f) { auto o = cur; cur = f; bool r = RecursiveASTVisitor::TraverseCXXMethodDecl(f); cur = o; return r; }
  bool TraverseLambdaExpr(LambdaExpr *l) { auto o = cur; cur = nullptr; bool r = RecursiveASTVisitor::TraverseLambdaExpr(l); cur = o; return r; }
  bool VisitIfStmt(IfStmt *s) {
    if (!simple(s)) return true;
    SourceRange cr = s->getCond()->getSourceRange(); std::string c = text(cr);
    Expr *cond = s->getCond()->IgnoreParenImpCasts();
    if (Mode == "hoist" && inCompound(s) && claim(SourceRange(s->getBeginLoc(), cr.getEnd()))) {
      std::string v = nm("rf_c");
      R.InsertTextBefore(s->getBeginLoc(), "const bool " + v + " = static_cast<bool>(" + c + ");\n");
      R.ReplaceText(cr, v);
    } else if (Mode == "condlambda" && claim(cr)) {
      R.ReplaceText(cr, "[&]() -> bool { return static_cast<bool>(" + c + "); }()");
    } else if (Mode == "split" && !s->getElse()) {
      auto *b = dyn_cast<BinaryOperator>(cond);
      if (b && b->getOpcode() == BO_LAnd && claim(s->getSourceRange())) {
        std::string t = text(s->getThen()->getSourceRange()), semi = isa<CompoundStmt>(s->getThen()) ? "" : ";";
        std::string n = "if (" + text(b->getLHS()->getSourceRange()) + ")\n{\nif (" + text(b->getRHS()->getSourceRange()) + ")\n" + t + semi + "\n}\n";
        unsigned e = endoff(s->getEndLoc()); bool q = !isa<CompoundStmt>(s->getThen());
        R.ReplaceText(s->getSourceRange(), n + (q ? "" : ""));
      }
    } else if (Mode == "splitor" && !s->getElse()) {   // if (a || b) S  ->  bool t = a; if (!t) t = b; if (t) S
      auto *b = dyn_cast<BinaryOperator>(cond);
      if (b && b->getOpcode() == BO_LOr && inCompound(s) && claim(SourceRange(s->getBeginLoc(), cr.getEnd()))) {
        std::string v = nm("rf_o");
        R.InsertTextBefore(s->getBeginLoc(), "bool " + v + " = static_cast<bool>(" + text(b->getLHS()->getSourceRange()) + ");\nif (!" + v + ")\n" + v + " = static_cast<bool>(" + text(b->getRHS()->getSourceRange()) + ");\n");
        R.ReplaceText(cr, v);
      }
    } else if (Mode == "invert" && s->getElse() && claim(s->getSourceRange())) {
      R.ReplaceText(s->getSourceRange(), "if (!(" + c + "))\n" + body(s->getElse()) + "\nelse\n" + body(s->getThen()) + (isa<CompoundStmt>(s->getElse()) ? "" : "\n"));
    } else if (Mode == "emptythen" && !s->getElse() && inCompound(s) && claim(s->getSourceRange())) {
      R.ReplaceText(s->getSourceRange(), "if (!(" + c + ")) { }\nelse\n" + (isa<CompoundStmt>(s->getThen()) ? text(s->getThen()->getSourceRange()) : text(s->getThen()->getSourceRange())));
    } else if (Mode == "bodylambda" && isa<CompoundStmt>(s->getThen()) && !jumps(s->getThen()).any() && claim(s->getThen()->getSourceRange())) {
      R.ReplaceText(s->getThen()->getSourceRange(), "{ const auto rf_f = [&]() " + text(s->getThen()->getSourceRange()) + "; rf_f(); }");
    } else if (Mode == "demorgan") {
      auto *b = dyn_cast<BinaryOperator>(cond);
      if (b && b->isLogicalOp() && claim(cr))
        R.ReplaceText(cr, "!(!(" + text(b->getLHS()->getSourceRange()) + ") " + (b->getOpcode() == BO_LAnd ? "||" : "&&") + " !(" + text(b->getRHS()->getSourceRange()) + "))");
      else if (!b && claim(cr)) R.ReplaceText(cr, "!!(" + c + ")");
    }
    return true;
  }
  bool VisitBinaryOperator(BinaryOperator *b) {
    if (Mode == "flip" && b->isComparisonOp() && b->getOpcode() != BO_Cmp && !b->getLHS()->getType()->isDependentType() && !b->getRHS()->getType()->isDependentType() && claim(b->getSourceRange())) {
      auto o = b->getOpcode(); const char *n = o == BO_LT ? ">" : o == BO_GT ? "<" : o == BO_LE ? ">=" : o == BO_GE ? "<=" : o == BO_EQ ? "==" : "!=";
      R.ReplaceText(b->getSourceRange(), "(" + text(b->getRHS()->getSourceRange()) + ") " + n + " (" + text(b->getLHS()->getSourceRange()) + ")");
    }
    return true;
  }
  bool VisitCXXForRangeStmt(CXXForRangeStmt *s) {
    if (Mode != "rangefor" || s->getInit() || !here(s->getSourceRange())) return true;
    if (!s->getRangeInit()->getType()->getAsCXXRecordDecl() || !isa<CompoundStmt>(s->getBody())) return true;
    if (isa<InitListExpr>(s->getRangeInit())) return true;
    std::string ds = text(SourceRange(s->getLoopVarStmt()->getBeginLoc(), s->getColonLoc()));
    if (ds.empty() || ds.back() != ':' || !claim(s->getSourceRange())) return true;
    ds.pop_back(); std::string r = nm("rf_r"), i = nm("rf_i");
    std::string bt = text(s->getBody()->getSourceRange());
    R.ReplaceText(s->getSourceRange(), "{ auto &&" + r + " = " + text(s->getRangeInit()->getSourceRange()) + ";\nfor (auto " + i + " = " + r + ".begin(); " + i + " != " + r + ".end(); ++" + i + ")\n{ " + ds + " = *" + i + ";\n" + bt.substr(1) + " }");
    return true;
  }
  bool VisitWhileStmt(WhileStmt *s) {
    if (Mode != "while" || s->getConditionVariable() || !isa<CompoundStmt>(s->getBody()) || !claim(s->getSourceRange())) return true;
    std::string bt = text(s->getBody()->getSourceRange());
    R.ReplaceText(s->getSourceRange(), "for (;;)\n{ if (!(" + text(s->getCond()->getSourceRange()) + ")) break;\n" + bt.substr(1));
    return true;
  }
  bool VisitForStmt(ForStmt *s) {
    if (Mode != "for" || s->getConditionVariable() || !s->getInit() || !s->getCond() || !s->getInc() || !isa<CompoundStmt>(s->getBody()) || !isa<DeclStmt>(s->getInit())) return true;
    if (jumps(s->getBody()).cont || !claim(s->getSourceRange())) return true;
    std::string bt = text(s->getBody()->getSourceRange()); bt.pop_back();
    R.ReplaceText(s->getSourceRange(), "{ " + text(s->getInit()->getSourceRange()) + "\nwhile (" + text(s->getCond()->getSourceRange()) + ")\n" + bt + text(s->getInc()->getSourceRange()) + ";\n} }");
    return true;
  }
  bool VisitReturnStmt(ReturnStmt *s) {
    if (Mode != "ret" || !cur || !s->getRetValue() || !inCompound(s)) return true;
    QualType t = cur->getReturnType();
    if (!(t->isArithmeticType() || t->isEnumeralType() || t->isPointerType()) || t->isReferenceType()) return true;
    if (isa<InitListExpr>(s->getRetValue()) || !claim(s->getSourceRange())) return true;
    std::string v = nm("rf_v");
    PrintingPolicy pp(C.getLangOpts());
    R.ReplaceText(s->getSourceRange(), "const " + t.getUnqualifiedType().getAsString(pp) + " " + v + " = " + text(s->getRetValue()->getSourceRange()) + ";\nreturn " + v);
    return true;
  }
  bool VisitCallExpr(CallExpr *c) {
    if (Mode == "arghoist" && !isa<CXXOperatorCallExpr>(c)) {
      if (!inCompound(c) && !(C.getParents(*c).size() == 1 && C.getParents(*c)[0].get<ExprWithCleanups>() && inCompound(const_cast<ExprWithCleanups *>(C.getParents(*c)[0].get<ExprWithCleanups>())))) return true;
      std::string pre; std::vector<std::pair<SourceRange, std::string>> rep;
      for (auto *a : c->arguments()) {
        Expr *e = a->IgnoreImplicit();
        if (isa<CXXDefaultArgExpr>(a) || !here(e->getSourceRange())) continue;
        QualType t = e->getType();
        if (!(t->isArithmeticType() || t->isEnumeralType()) ) continue;
        if (isa<DeclRefExpr>(e) || isa<IntegerLiteral>(e) || isa<CXXBoolLiteralExpr>(e)) continue;
        if (a->isLValue()) continue;
        std::string v = nm("rf_a"); pre += "const auto " + v + " = " + text(e->getSourceRange()) + ";\n"; rep.push_back({e->getSourceRange(), v});
      }
      if (rep.empty() || !claim(c->getSourceRange())) return true;
      R.InsertTextBefore(c->getBeginLoc(), pre);
      for (auto &r : rep) R.ReplaceText(r.first, r.second);
    }
    if (Mode == "memalias") if (auto *m = dyn_cast<CXXMemberCallExpr>(c)) {
      if (!inCompound(c) && !(C.getParents(*c).size() == 1 && C.getParents(*c)[0].get<ExprWithCleanups>() && inCompound(const_cast<ExprWithCleanups *>(C.getParents(*c)[0].get<ExprWithCleanups>())))) return true;
      auto *me = dyn_cast<MemberExpr>(m->getCallee()->IgnoreParens());
      if (!me || me->isImplicitAccess()) return true;
      Expr *b = me->getBase()->IgnoreParenImpCasts();
      auto *bm = dyn_cast<MemberExpr>(b);
      if (!bm || !bm->isLValue() || me->isArrow() || !claim(c->getSourceRange())) return true;
      std::string v = nm("rf_m");
      std::string bt = text(b->getSourceRange()), ct = text(c->getSourceRange());
      if (ct.compare(0, bt.size(), bt) != 0) return true;
      R.ReplaceText(c->getSourceRange(), "auto &" + v + " = " + bt + ";\n" + v + ct.substr(bt.size()));
    }
    return true;
  }
  // x.f() in an initialiser or anything: nothing
  bool VisitConditionalOperator(ConditionalOperator *c) {
    if (Mode == "ternary" && claim(c->getSourceRange())) R.ReplaceText(c->getSourceRange(), "!(" + text(c->getCond()->getSourceRange()) + ") ? " + text(c->getFalseExpr()->getSourceRange()) + " : " + text(c->getTrueExpr()->getSourceRange()));
    return true;
  }
};
struct Cons : ASTConsumer {
  Rewriter R;
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) exit(3);
    R.setSourceMgr(C.getSourceManager(), C.getLangOpts());
    V v(C, R); v.TraverseDecl(C.getTranslationUnitDecl());
    std::ofstream o(Out);
    auto &b = R.getEditBuffer(C.getSourceManager().getMainFileID());
    o << std::string(b.begin(), b.end());
    llvm::errs() << Applied << "\n";
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char **argv) {
  Mode = argv[1]; Out = argv[2]; Rng.seed(atoi(argv[3])); Pct = atoi(argv[4]);
  std::vector<std::string> flags; int i = 6;
  for (; i < argc && std::string(argv[i]) != "--"; i++) flags.push_back(argv[i]);
  std::string file = argv[i + 1];
  clang::tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool t(db, {file});
  return t.run(tooling::newFrontendActionFactory<Act>().get());
}
