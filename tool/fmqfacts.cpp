// fmqfacts: dumps, for every function with a body that is written in the repository, its resolved
// control-flow graph with expression trees (callees, fields, variables, enumerators resolved by the
// clang front end), plus records, enums and globals. One JSON object per line.
//
// usage: fmqfacts <repo-root> <outfile> -- <compile flags> -- file.cpp...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <fstream>

using namespace clang;
namespace json = llvm::json;

static int64_t toI64(const llvm::APSInt &v) { return v.isRepresentableByInt64() ? v.getExtValue() : (int64_t)v.extOrTrunc(64).getZExtValue(); }
static int64_t toI64(const llvm::APInt &v) { return v.getActiveBits() <= 64 ? (int64_t)v.getZExtValue() : -1; }
static std::string Root;
static std::unique_ptr<llvm::raw_fd_ostream> Out;
static std::set<std::string> Done;      // USRs already emitted by this process

class Dumper {
    ASTContext &Ctx;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<const Stmt*, int> ElemId;      // statements that are CFG elements of their own
    std::set<const Stmt*> InProgress;
    std::vector<const LambdaExpr*> Lambdas;
public:
    std::vector<const CXXMethodDecl*> LambdaOps;

    Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.SuppressInlineNamespace = true; PP.Bool = true;
    }

    std::string rel(StringRef f) {
        if (f.starts_with(Root)) { StringRef r = f.substr(Root.size()); while (r.starts_with("/")) r = r.substr(1); return r.str(); }
        return f.str();
    }
    bool inRepo(SourceLocation L) {
        if (L.isInvalid()) return false;
        L = SM.getExpansionLoc(L);
        StringRef f = SM.getFilename(L);
        if (!f.starts_with("/")) {
            if (auto fe = SM.getFileEntryRefForID(SM.getFileID(L))) {
                StringRef rp = fe->getFileEntry().tryGetRealPathName();
                return rp.starts_with(Root);
            }
            return false;
        }
        return f.starts_with(Root);
    }
    std::string file(SourceLocation L) { L = SM.getExpansionLoc(L); return rel(SM.getFilename(L)); }
    unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

    std::string usr(const Decl *D) {
        SmallString<256> b;
        if (index::generateUSRForDecl(D, b)) return "";
        return b.str().str();
    }
    std::string fid(const FunctionDecl *F) {
        F = F->getCanonicalDecl();
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) {
            // lambda: identify by position
            SourceLocation L = SM.getExpansionLoc(M->getParent()->getBeginLoc());
            return "lambda@" + file(L) + ":" + std::to_string(line(L)) + ":" + std::to_string(SM.getExpansionColumnNumber(L)) + (M->isTemplateInstantiation() ? "#" + usr(M) : "");
        }
        return usr(F);
    }
    std::string qname(const NamedDecl *D) {
        // qualified name without template arguments and inline namespaces
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy P = PP;
        P.SuppressUnwrittenScope = true;
        D->printQualifiedName(os, P);
        os.flush();
        if (auto *M = dyn_cast<CXXMethodDecl>(D)) if (M->getParent()->isLambda()) return "<lambda>";
        if (auto *FD = dyn_cast<FieldDecl>(D)) {
            // use the record of the declaration
            const RecordDecl *R = FD->getParent();
            return qname(R) + "::" + FD->getNameAsString();
        }
        // strip template args "<...>"
        std::string r; int depth = 0;
        bool isop = false;
        size_t op = s.find("operator");
        for (size_t i = 0; i < s.size(); i++) {
            if (op != std::string::npos && i >= op) { isop = true; }
            if (isop) { r += s.substr(i); break; }
            if (s[i] == '<' && !(i == 0) ) { depth++; continue; }
            if (s[i] == '>' && depth) { depth--; continue; }
            if (!depth) r += s[i];
        }
        return r;
    }
    std::string tyname(QualType T) {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string varid(const VarDecl *V) {
        if (auto *P = dyn_cast<ParmVarDecl>(V)) {
            // parameter identity: name + position of this declaration
            (void)P;
        }
        SourceLocation L = SM.getExpansionLoc(V->getLocation());
        return V->getNameAsString() + "@" + std::to_string(line(L)) + ":" + std::to_string(SM.getExpansionColumnNumber(L));
    }

    json::Value loc(SourceLocation L) { return (int64_t)line(L); }

    // ---------------------------------------------------------------- expressions
    json::Value node(const Stmt *S, bool top = false) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) return expr(E, top);
        return stmt(S);
    }

    const Expr *strip(const Expr *E) {
        while (true) {
            if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
            if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
                if (P->getCastKind() == CK_IntegralCast) {
                    QualType a = P->getSubExpr()->getType(), b = P->getType();
                    if (Ctx.getTypeSize(b) < Ctx.getTypeSize(a) && !P->isValueDependent() && !P->getSubExpr()->isEvaluatable(Ctx)) return E; // narrowing kept
                }
                E = P->getSubExpr(); continue;
            }
            if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { if (!P->getExpr()) return E; E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXFunctionalCastExpr>(E)) {
                if (P->getCastKind() == CK_ConstructorConversion || P->getCastKind() == CK_UserDefinedConversion || P->getCastKind() == CK_NoOp) { E = P->getSubExpr(); continue; }
            }
            return E;
        }
    }

    int elemIdOf(const Expr *E) {
        // an element may be the wrapped or unwrapped expression
        auto it = ElemId.find(E);
        if (it != ElemId.end()) return it->second;
        return -1;
    }

    // the element a wrapper expression (cleanups, parentheses, temporaries, casts without effect) stands for, or -1
    int chainId(const Expr *X) {
        while (true) {
            const Expr *Y = X;
            if (auto *P = dyn_cast<ParenExpr>(X)) Y = P->getSubExpr();
            else if (auto *P = dyn_cast<FullExpr>(X)) Y = P->getSubExpr();
            else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) Y = P->getSubExpr();
            else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) Y = P->getSubExpr();
            else if (auto *P = dyn_cast<ImplicitCastExpr>(X)) { if (strip(X) == X) return -1; Y = P->getSubExpr(); }
            if (!Y || Y == X) return -1;
            X = Y;
            int id = elemIdOf(X);
            if (id >= 0) return id;
        }
    }

    json::Value callArgs(const Expr *const *b, unsigned n) {
        json::Array a;
        for (unsigned i = 0; i < n; i++) a.push_back(expr(b[i]));
        return std::move(a);
    }

    // arguments handed over by non-const lvalue reference to a number or a truth value
    void outArgs(json::Object &o, const FunctionDecl *F, const Expr *const *b, unsigned n) {
        if (!F) return;
        if (F->isTemplateInstantiation() && F->getNameAsString() != "swap" && F->getNameAsString() != "exchange") return;   // forwarding
        json::Array w;
        for (unsigned i = 0; i < n && i < F->getNumParams(); i++) {
            QualType T = F->getParamDecl(i)->getType();
            if (!T->isLValueReferenceType()) continue;
            QualType U = T->getPointeeType();
            if (!U.isConstQualified() && (U->isArithmeticType() || U->isEnumeralType())) w.push_back((int64_t)i);
        }
        if (!w.empty()) o["w"] = std::move(w);
    }

    json::Value expr(const Expr *E0, bool top = false) {
        // look for element refs along the strip chain
        const Expr *E = E0;
        if (!top) {
            const Expr *X = E0;
            while (true) {
                int id = elemIdOf(X);
                if (id >= 0) return json::Object{{"k", "ref"}, {"i", id}};
                const Expr *Y = X;
                if (auto *P = dyn_cast<ParenExpr>(X)) Y = P->getSubExpr();
                else if (auto *P = dyn_cast<FullExpr>(X)) Y = P->getSubExpr();
                else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) Y = P->getSubExpr();
                else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) Y = P->getSubExpr();
                else if (auto *P = dyn_cast<ImplicitCastExpr>(X)) { if (strip(X) == X) break; Y = P->getSubExpr(); }
                else if (auto *P = dyn_cast<CXXDefaultArgExpr>(X)) Y = P->getExpr();
                else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(X)) Y = P->getSubExpr();
                else break;
                if (!Y || Y == X) break;
                X = Y;
            }
        }
        E = strip(E0);
        json::Object o;
        o["l"] = loc(E->getExprLoc());

        if (auto *C = dyn_cast<ImplicitCastExpr>(E)) {
            o["k"] = "narrow"; o["t"] = tyname(C->getType()); o["e"] = expr(C->getSubExpr()); return std::move(o);
        }
        if (auto *I = dyn_cast<IntegerLiteral>(E)) { o["k"] = "int"; SmallString<32> s; I->getValue().toString(s, 10, false); o["v"] = I->getValue().getActiveBits() <= 63 ? json::Value((int64_t)I->getValue().getZExtValue()) : json::Value(s.str().str()); return std::move(o); }
        if (auto *I = dyn_cast<CharacterLiteral>(E)) { o["k"] = "int"; o["v"] = (int64_t)I->getValue(); o["ch"] = true; return std::move(o); }
        if (auto *I = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "bool"; o["v"] = I->getValue(); return std::move(o); }
        if (auto *I = dyn_cast<FloatingLiteral>(E)) { o["k"] = "float"; o["v"] = I->getValueAsApproximateDouble(); return std::move(o); }
        if (auto *I = dyn_cast<StringLiteral>(E)) { o["k"] = "str"; o["v"] = I->getCharByteWidth() == 1 ? json::fixUTF8(I->getString()) : std::string(""); return std::move(o); }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; return std::move(o); }
        if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return std::move(o); }
        if (auto *D = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *V = D->getDecl();
            if (auto *EC = dyn_cast<EnumConstantDecl>(V)) { o["k"] = "enum"; o["n"] = qname(EC); o["v"] = toI64(EC->getInitVal()); return std::move(o); }
            if (auto *F = dyn_cast<FunctionDecl>(V)) { o["k"] = "fn"; o["n"] = qname(F); o["id"] = fid(F); return std::move(o); }
            if (auto *B = dyn_cast<BindingDecl>(V)) { o["k"] = "var"; o["n"] = B->getNameAsString(); o["id"] = B->getNameAsString() + "@b" + std::to_string(line(B->getLocation())); o["t"] = tyname(B->getType()); return std::move(o); }
            if (auto *VD = dyn_cast<VarDecl>(V)) {
                if (VD->isLocalVarDeclOrParm()) {
                    o["k"] = "var"; o["n"] = VD->getNameAsString(); o["id"] = varid(VD); o["t"] = tyname(VD->getType());
                    if (isa<ParmVarDecl>(VD)) o["parm"] = true;
                    if (VD->isStaticLocal()) o["static"] = true;
                } else {
                    o["k"] = "gvar"; o["n"] = qname(VD); o["t"] = tyname(VD->getType());
                    if (VD->getTSCSpec() != TSCS_unspecified || VD->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
                }
                if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType()) {
                    Expr::EvalResult R; if (VD->isUsableInConstantExpressions(Ctx) && E->EvaluateAsInt(R, Ctx)) o["v"] = toI64(R.Val.getInt());
                }
                return std::move(o);
            }
            o["k"] = "other"; o["c"] = "declref"; return std::move(o);
        }
        if (auto *M = dyn_cast<MemberExpr>(E)) {
            const ValueDecl *V = M->getMemberDecl();
            if (auto *F = dyn_cast<FieldDecl>(V)) {
                o["k"] = "mem"; o["n"] = qname(F); o["b"] = expr(M->getBase()); o["t"] = tyname(F->getType());
                if (M->isArrow()) o["arrow"] = true;
                return std::move(o);
            }
            if (auto *VD = dyn_cast<VarDecl>(V)) { o["k"] = "gvar"; o["n"] = qname(VD); o["t"] = tyname(VD->getType());
                if (VD->getTLSKind() != VarDecl::TLS_None) o["tls"] = true; return std::move(o); }
            if (auto *MD = dyn_cast<CXXMethodDecl>(V)) { o["k"] = "fn"; o["n"] = qname(MD); o["id"] = fid(MD); o["b"] = expr(M->getBase()); return std::move(o); }
            if (auto *EC = dyn_cast<EnumConstantDecl>(V)) { o["k"] = "enum"; o["n"] = qname(EC); o["v"] = toI64(EC->getInitVal()); return std::move(o); }
            o["k"] = "other"; o["c"] = "member"; return std::move(o);
        }
        if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) {
            o["k"] = "call"; o["op"] = getOperatorSpelling(O->getOperator());
            const FunctionDecl *F = O->getDirectCallee();
            unsigned start = 0;
            if (F) { callee(o, F);
                if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic() && O->getNumArgs() > 0) { o["o"] = expr(O->getArg(0)); o["ot"] = tyname(O->getArg(0)->getType()); start = 1; }
            }
            json::Array a; for (unsigned i = start; i < O->getNumArgs(); i++) a.push_back(expr(O->getArg(i)));
            o["a"] = std::move(a); o["t"] = tyname(E->getType());
            return std::move(o);
        }
        if (auto *C = dyn_cast<CXXMemberCallExpr>(E)) {
            o["k"] = "call";
            if (auto *MD = C->getMethodDecl()) callee(o, MD);
            else { o["n"] = "<memptr>"; o["f"] = expr(C->getCallee()); }
            if (auto *ob = C->getImplicitObjectArgument()) { o["o"] = expr(ob); o["ot"] = tyname(ob->getType()); }
            if (auto *ME = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParens())) if (ME->hasQualifier() && C->getMethodDecl() && C->getMethodDecl()->isVirtual()) o["nonvirt"] = true;
            o["a"] = callArgs(C->getArgs(), C->getNumArgs()); o["t"] = tyname(E->getType());
            outArgs(o, C->getMethodDecl(), C->getArgs(), C->getNumArgs());
            return std::move(o);
        }
        if (auto *C = dyn_cast<UserDefinedLiteral>(E)) { o["k"] = "other"; o["c"] = "udl"; (void)C; return std::move(o); }
        if (auto *C = dyn_cast<CallExpr>(E)) {
            o["k"] = "call";
            if (auto *F = C->getDirectCallee()) callee(o, F);
            else { o["n"] = "<indirect>"; o["f"] = expr(C->getCallee()); }
            o["a"] = callArgs(C->getArgs(), C->getNumArgs()); o["t"] = tyname(E->getType());
            outArgs(o, C->getDirectCallee(), C->getArgs(), C->getNumArgs());
            return std::move(o);
        }
        if (auto *C = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["k"] = "ctor"; callee(o, C->getConstructor()); o["a"] = json::Array{}; return std::move(o); }
        if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
            const CXXConstructorDecl *CD = C->getConstructor();
            // elide copy/move of temporaries and implicit conversions that only forward
            o["k"] = "ctor"; callee(o, CD); o["t"] = tyname(E->getType());
            if (CD->isCopyOrMoveConstructor()) o["cm"] = true;
            json::Array a; for (unsigned i = 0; i < C->getNumArgs(); i++) a.push_back(expr(C->getArg(i)));
            o["a"] = std::move(a);
            if (isa<CXXTemporaryObjectExpr>(E)) o["temp"] = true;
            outArgs(o, CD, C->getArgs(), C->getNumArgs());
            return std::move(o);
        }
        if (auto *B = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
            auto D = B->getDecomposedForm();
            o["k"] = "bin"; o["op"] = BinaryOperator::getOpcodeStr(D.Opcode).str(); o["a"] = expr(D.LHS); o["b"] = expr(D.RHS); o["rw"] = true;
            return std::move(o);
        }
        if (auto *B = dyn_cast<BinaryOperator>(E)) {
            std::string op = B->getOpcodeStr().str();
            if (B->isAssignmentOp()) { o["k"] = "asg"; o["op"] = op; o["a"] = expr(B->getLHS()); o["b"] = expr(B->getRHS()); return std::move(o); }
            o["k"] = "bin"; o["op"] = op; o["a"] = expr(B->getLHS()); o["b"] = expr(B->getRHS());
            constVal(o, E);
            return std::move(o);
        }
        if (auto *U = dyn_cast<UnaryOperator>(E)) {
            o["k"] = "un"; std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) op = "post" + op;
            o["op"] = op; o["e"] = expr(U->getSubExpr()); constVal(o, E);
            return std::move(o);
        }
        if (auto *C = dyn_cast<AbstractConditionalOperator>(E)) {
            o["k"] = "cond"; o["c"] = expr(C->getCond()); o["a"] = expr(C->getTrueExpr()); o["b"] = expr(C->getFalseExpr()); return std::move(o);
        }
        if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "idx"; o["b"] = expr(A->getBase()); o["i"] = expr(A->getIdx()); return std::move(o); }
        if (auto *C = dyn_cast<ExplicitCastExpr>(E)) {
            o["k"] = "cast"; o["t"] = tyname(C->getType()); o["e"] = expr(C->getSubExpr()); constVal(o, E);
            if (isa<CXXReinterpretCastExpr>(E)) o["re"] = true;
            return std::move(o);
        }
        if (auto *N = dyn_cast<CXXNewExpr>(E)) { o["k"] = "new"; o["t"] = tyname(N->getAllocatedType()); if (N->getInitializer()) o["e"] = expr(N->getInitializer()); return std::move(o); }
        if (auto *N = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "del"; o["e"] = expr(N->getArgument()); return std::move(o); }
        if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
            o["k"] = "throw"; if (T->getSubExpr()) { o["t"] = tyname(T->getSubExpr()->getType()); o["e"] = expr(T->getSubExpr()); } return std::move(o);
        }
        if (auto *L = dyn_cast<LambdaExpr>(E)) {
            o["k"] = "lambda"; const CXXMethodDecl *Op = L->getCallOperator();
            if (auto *FT = L->getDependentCallOperator()) { // generic lambda: all instantiations
                json::Array ids; for (auto *S : FT->specializations()) { ids.push_back(fid(S)); LambdaOps.push_back(cast<CXXMethodDecl>(S)); }
                o["ids"] = std::move(ids);
            } else { o["id"] = fid(Op); LambdaOps.push_back(Op); }
            json::Array caps;
            auto ci = L->capture_init_begin();
            for (auto &c : L->captures()) {
                json::Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) { if (auto *VD = dyn_cast<VarDecl>(c.getCapturedVar())) co["id"] = varid(VD); co["ref"] = c.getCaptureKind() == LCK_ByRef;
                    if (c.getCapturedVar()->isInitCapture()) co["init"] = expr(*ci); }
                caps.push_back(std::move(co)); ++ci;
            }
            o["caps"] = std::move(caps);
            return std::move(o);
        }
        if (auto *I = dyn_cast<InitListExpr>(E)) {
            o["k"] = "init"; o["t"] = tyname(E->getType());
            json::Array a; for (unsigned i = 0; i < I->getNumInits(); i++) a.push_back(expr(I->getInit(i)));
            o["a"] = std::move(a); return std::move(o);
        }
        if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { o["k"] = "sizeof"; o["t"] = tyname(U->getTypeOfArgument()); constVal(o, E); return std::move(o); }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o["k"] = "zero"; o["t"] = tyname(E->getType()); return std::move(o); }
        if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (P->getSourceExpr()) return expr(P->getSourceExpr()); }
        if (auto *P = dyn_cast<PredefinedExpr>(E)) { o["k"] = "str"; o["v"] = P->getFunctionName() ? json::fixUTF8(P->getFunctionName()->getString()) : std::string(""); return std::move(o); }
        if (auto *AI = dyn_cast<ArrayInitLoopExpr>(E)) { o["k"] = "other"; o["c"] = "arrayinit"; o["s"] = json::Array{expr(AI->getSubExpr())}; return std::move(o); }
        o["k"] = "other"; o["c"] = E->getStmtClassName();
        json::Array s; for (auto *ch : E->children()) if (ch) s.push_back(node(ch)); o["s"] = std::move(s);
        return std::move(o);
    }
    void constVal(json::Object &o, const Expr *E) {
        if (E->isValueDependent() || !E->getType()->isIntegralOrEnumerationType()) return;
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) { auto &v = R.Val.getInt(); if (v.getSignificantBits() <= 64) o["v"] = toI64(v); }
    }
    void callee(json::Object &o, const FunctionDecl *F) {
        o["n"] = qname(F); o["id"] = fid(F);
        if (inRepo(F->getLocation())) o["r"] = true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isVirtual()) o["virt"] = true; if (M->isConst()) o["const"] = true;
            }
        if (auto *TA = F->getTemplateSpecializationArgs()) {
            json::Array ta; for (auto &a : TA->asArray()) if (a.getKind() == TemplateArgument::Type) ta.push_back(tyname(a.getAsType()));
            o["ta"] = std::move(ta);
        }
        if (auto *P = F->getType()->getAs<FunctionProtoType>()) if (P->isNothrow()) o["nt"] = true;
    }

    json::Value stmt(const Stmt *S) {
        json::Object o;
        o["l"] = loc(S->getBeginLoc());
        if (auto *D = dyn_cast<DeclStmt>(S)) {
            o["k"] = "decl"; json::Array a;
            for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) {
                json::Object v; v["n"] = V->getNameAsString(); v["id"] = varid(V); v["t"] = tyname(V->getType()); v["l"] = loc(V->getLocation());
                if (V->isStaticLocal()) v["static"] = true;
                if (V->getType()->isReferenceType()) v["isref"] = true;
                if (V->getInit()) v["e"] = expr(V->getInit());
                if (auto *DD = dyn_cast<DecompositionDecl>(V)) { json::Array bs; for (auto *b : DD->bindings()) bs.push_back(b->getNameAsString() + "@b" + std::to_string(line(b->getLocation()))); v["bind"] = std::move(bs); }
                a.push_back(std::move(v));
            }
            o["d"] = std::move(a); return std::move(o);
        }
        if (auto *R = dyn_cast<ReturnStmt>(S)) { o["k"] = "ret"; if (R->getRetValue()) o["e"] = expr(R->getRetValue()); return std::move(o); }
        o["k"] = "stmt"; o["c"] = S->getStmtClassName();
        return std::move(o);
    }

    // ---------------------------------------------------------------- functions
    void function(const FunctionDecl *F, const FunctionDecl *Parent = nullptr) {
        if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return;
        if (!inRepo(F->getLocation()) ) return;
        std::string id = fid(F);
        if (!Done.insert(id).second) return;

        CFG::BuildOptions BO;
        BO.AddImplicitDtors = true; BO.AddTemporaryDtors = true; BO.AddInitializers = true; BO.AddEHEdges = true;
        BO.PruneTriviallyFalseEdges = true; BO.AddStaticInitBranches = false;
        BO.AddCXXDefaultInitExprInCtors = true;
        std::unique_ptr<CFG> G = CFG::buildCFG(F, F->getBody(), &Ctx, BO);

        json::Object o;
        o["kind"] = "func"; o["id"] = id; o["q"] = qname(F); o["file"] = file(F->getLocation()); o["line"] = loc(F->getLocation()); o["end"] = loc(F->getEndLoc());
        o["ret"] = tyname(F->getReturnType());
        json::Array ps; for (auto *p : F->parameters()) ps.push_back(json::Object{{"n", p->getNameAsString()}, {"id", varid(p)}, {"t", tyname(p->getType())}});
        o["params"] = std::move(ps);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qname(M->getParent()); if (M->isVirtual()) o["virt"] = true; if (M->isStatic()) o["static"] = true; if (M->isConst()) o["const"] = true;
            json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(fid(b)); if (!ov.empty()) o["over"] = std::move(ov);
            if (M->getParent()->isLambda()) o["lambda"] = true;
            o["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected";
            o["clst"] = tyname(Ctx.getTypeDeclType(M->getParent()));
        }
        if (isa<CXXConstructorDecl>(F)) o["ctor"] = true;
        if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
        if (F->isExternC()) o["externc"] = true;
        if (Parent) o["parent"] = fid(Parent);
        if (auto *P = F->getType()->getAs<FunctionProtoType>()) if (P->isNothrow()) o["noexcept"] = true;
        if (isa<CXXDestructorDecl>(F) && !o.get("noexcept")) {
            if (auto *P = F->getType()->getAs<FunctionProtoType>()) if (P->getExceptionSpecType() != EST_NoexceptFalse) o["noexcept"] = true;
        }
        ElemId.clear(); LambdaOps.clear();
        if (!G) { o["nocfg"] = true; emit(std::move(o)); return; }

        int n = 0;
        std::map<const CFGBlock*, std::vector<int>> ids;
        for (auto *B : *G) for (auto &El : *B) {
            if (auto S = El.getAs<CFGStmt>()) {
                const Stmt *st = S->getStmt();
                auto it = ElemId.find(st);
                if (it == ElemId.end()) { ElemId[st] = n; }
            }
            ids[B].push_back(n); n++;
        }
        json::Array blocks;
        for (auto *B : *G) {
            json::Object b; b["id"] = (int64_t)B->getBlockID();
            json::Array els; unsigned idx = 0;
            for (auto &El : *B) {
                int eid = ids[B][idx++];
                json::Object e; e["i"] = eid;
                if (auto S = El.getAs<CFGStmt>()) {
                    const Stmt *st = S->getStmt();
                    if (ElemId[st] != eid) { e["x"] = json::Object{{"k", "ref"}, {"i", ElemId[st]}}; e["dup"] = true; }
                    else if (auto *we = dyn_cast<Expr>(st); we && chainId(we) >= 0) { e["x"] = json::Object{{"k", "ref"}, {"i", chainId(we)}}; e["dup"] = true; }
                    else e["x"] = node(st, true);
                } else if (auto I = El.getAs<CFGInitializer>()) {
                    auto *ci = I->getInitializer(); json::Object x; x["k"] = "minit"; x["l"] = loc(ci->getSourceLocation());
                    if (ci->isAnyMemberInitializer()) x["n"] = qname(ci->getAnyMember()); else if (ci->isBaseInitializer()) x["base"] = tyname(QualType(ci->getBaseClass(), 0));
                    if (ci->isWritten()) x["w"] = true;
                    if (ci->getInit()) x["e"] = expr(ci->getInit());
                    e["x"] = std::move(x);
                } else if (auto D = El.getAs<CFGAutomaticObjDtor>()) {
                    json::Object x; x["k"] = "dtor"; x["id"] = varid(D->getVarDecl()); x["t"] = tyname(D->getVarDecl()->getType()); x["l"] = loc(D->getTriggerStmt() ? D->getTriggerStmt()->getEndLoc() : SourceLocation());
                    if (auto *dd = D->getDestructorDecl(Ctx)) { x["f"] = fid(dd); x["n"] = qname(dd); }
                    e["x"] = std::move(x);
                } else if (auto D = El.getAs<CFGTemporaryDtor>()) {
                    json::Object x; x["k"] = "tdtor"; x["t"] = tyname(D->getBindTemporaryExpr()->getType());
                    x["e"] = expr(D->getBindTemporaryExpr());
                    if (auto *dd = D->getDestructorDecl(Ctx)) { x["f"] = fid(dd); x["n"] = qname(dd); }
                    e["x"] = std::move(x);
                } else if (auto D = El.getAs<CFGMemberDtor>()) {
                    json::Object x; x["k"] = "mdtor"; x["n"] = qname(D->getFieldDecl()); x["t"] = tyname(D->getFieldDecl()->getType()); e["x"] = std::move(x);
                } else if (auto D = El.getAs<CFGDeleteDtor>()) {
                    json::Object x; x["k"] = "deldtor"; x["e"] = expr(D->getDeleteExpr()); e["x"] = std::move(x);
                } else { e["x"] = json::Object{{"k", "misc"}}; }
                els.push_back(std::move(e));
            }
            b["e"] = std::move(els);
            json::Array su;
            for (auto &s : B->succs()) { if (const CFGBlock *t = s.getReachableBlock()) su.push_back((int64_t)t->getBlockID()); else if (const CFGBlock *t2 = s.getPossiblyUnreachableBlock()) su.push_back(json::Object{{"u", (int64_t)t2->getBlockID()}}); else su.push_back(nullptr); }
            b["s"] = std::move(su);
            CFGTerminator T = B->getTerminator();
            if (T.isValid()) {
                json::Object t;
                if (T.isTemporaryDtorsBranch()) t["k"] = "tmpdtor";
                else if (T.isVirtualBaseBranch()) t["k"] = "vbase";
                else {
                    const Stmt *ts = T.getStmt(); t["k"] = ts->getStmtClassName(); t["l"] = loc(ts->getBeginLoc());
                    if (auto *L = B->getLastCondition()) t["c"] = expr(L);
                    else if (auto *c = B->getTerminatorCondition(true)) t["c"] = node(c);
                    if (auto *sw = dyn_cast<SwitchStmt>(ts)) { t["c"] = expr(sw->getCond()); t["allenum"] = sw->isAllEnumCasesCovered(); t["ct"] = tyname(sw->getCond()->IgnoreImpCasts()->getType()); }
                    if (auto *bo = dyn_cast<BinaryOperator>(ts)) t["op"] = bo->getOpcodeStr().str();
                }
                b["t"] = std::move(t);
            }
            if (const Stmt *L = B->getLabel()) {
                json::Object lb; lb["l"] = loc(L->getBeginLoc());
                if (auto *C = dyn_cast<CaseStmt>(L)) { lb["k"] = "case"; lb["e"] = expr(C->getLHS()); if (C->getRHS()) lb["e2"] = expr(C->getRHS());
                    // constant value
                    Expr::EvalResult R; if (!C->getLHS()->isValueDependent() && C->getLHS()->EvaluateAsInt(R, Ctx)) lb["v"] = toI64(R.Val.getInt()); }
                else if (isa<DefaultStmt>(L)) lb["k"] = "default";
                else if (auto *C = dyn_cast<CXXCatchStmt>(L)) { lb["k"] = "catch"; lb["t"] = C->getExceptionDecl() ? tyname(C->getCaughtType().getNonReferenceType().getUnqualifiedType()) : std::string("..."); if (C->getExceptionDecl()) lb["id"] = varid(C->getExceptionDecl()); }
                else lb["k"] = "label";
                b["lab"] = std::move(lb);
            }
            blocks.push_back(std::move(b));
        }
        o["blocks"] = std::move(blocks); o["entry"] = (int64_t)G->getEntry().getBlockID(); o["exit"] = (int64_t)G->getExit().getBlockID();
        auto ops = LambdaOps;
        emit(std::move(o));
        for (auto *op : ops) function(op, F);
    }
    void emit(json::Object o) { *Out << json::Value(std::move(o)) << "\n"; }

    void record(const CXXRecordDecl *R) {
        if (!R->isCompleteDefinition() || R->isDependentContext() || R->isLambda() || !inRepo(R->getLocation())) return;
        std::string id = "rec:" + tyname(Ctx.getTypeDeclType(R));
        if (!Done.insert(id).second) return;
        json::Object o; o["kind"] = "record"; o["q"] = qname(R); o["t"] = tyname(Ctx.getTypeDeclType(R)); o["file"] = file(R->getLocation()); o["line"] = loc(R->getLocation());
        json::Array fs; for (auto *f : R->fields()) { json::Object x{{"n", f->getNameAsString()}, {"t", tyname(f->getType())}, {"l", (int64_t)line(f->getLocation())}};
            x["acc"] = f->getAccess() == AS_public ? "public" : "private"; if (f->isMutable()) x["mut"] = true; if (f->hasInClassInitializer()) { x["init"] = true; ElemId.clear(); if (f->getInClassInitializer()) x["ie"] = expr(f->getInClassInitializer()); } fs.push_back(std::move(x)); }
        o["fields"] = std::move(fs);
        json::Array bs; for (auto &b : R->bases()) bs.push_back(tyname(b.getType())); o["bases"] = std::move(bs);
        json::Array ms; for (auto *m : R->methods()) { json::Object x{{"n", m->getNameAsString()}, {"id", fid(m)}, {"q", qname(m)}}; if (m->isDeleted()) x["deleted"] = true; if (m->isDefaulted()) x["defaulted"] = true; if (m->isImplicit()) x["implicit"] = true;
            if (auto *c = dyn_cast<CXXConstructorDecl>(m)) x["ctor"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : "other"; if (m->isCopyAssignmentOperator()) x["asg"] = "copy"; if (m->isMoveAssignmentOperator()) x["asg"] = "move";
            x["acc"] = m->getAccess() == AS_public ? "public" : "private"; ms.push_back(std::move(x)); }
        o["methods"] = std::move(ms);
        emit(std::move(o));
    }
    void enumeration(const EnumDecl *E) {
        if (!E->isCompleteDefinition() || !inRepo(E->getLocation())) return;
        std::string id = "enum:" + usr(E); if (!Done.insert(id).second) return;
        json::Object o; o["kind"] = "enum"; o["q"] = qname(E); o["file"] = file(E->getLocation()); o["line"] = loc(E->getLocation());
        json::Array a; for (auto *e : E->enumerators()) a.push_back(json::Object{{"n", e->getNameAsString()}, {"v", toI64(e->getInitVal())}}); o["vals"] = std::move(a); emit(std::move(o));
    }
    void global(const VarDecl *V) {
        if (!inRepo(V->getLocation()) || V->isLocalVarDeclOrParm() || V->getDeclContext()->isDependentContext()) return;
        if (!V->hasGlobalStorage()) return;
        std::string id = "gv:" + usr(V) + (V->isThisDeclarationADefinition() ? "d" : "x"); if (!Done.insert(id).second) return;
        json::Object o; o["kind"] = "gvar"; o["q"] = qname(V); o["t"] = tyname(V->getType()); o["file"] = file(V->getLocation()); o["line"] = loc(V->getLocation());
        o["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly; if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        emit(std::move(o));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Dumper &D;
    Visitor(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        D.function(F); return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
    bool VisitEnumDecl(EnumDecl *E) { D.enumeration(E); return true; }
    bool VisitVarDecl(VarDecl *V) { D.global(V); return true; }
};

class Consumer : public ASTConsumer {
    CompilerInstance &CI;
public:
    Consumer(CompilerInstance &ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext &C) override {
        if (CI.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(C); Visitor V(D);
        // only walk top-level declarations located in the repository (system headers hold none),
        // but template instantiations of repository templates are reached through their templates
        for (auto *d : C.getTranslationUnitDecl()->decls()) {
            if (!D.inRepo(d->getLocation())) continue;
            V.TraverseDecl(d);
        }
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};

int main(int argc, const char **argv) {
    if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
    Root = argv[1];
    std::error_code EC; Out = std::make_unique<llvm::raw_fd_ostream>(argv[2], EC); if (EC) { llvm::errs() << EC.message(); return 2; }
    std::vector<std::string> flags, files; int st = 0;
    for (int i = 3; i < argc; i++) { std::string a = argv[i]; if (a == "--") { st++; continue; } if (st == 1) flags.push_back(a); else if (st == 2) files.push_back(a); }
    tooling::FixedCompilationDatabase DB(Root, flags);
    int rc = 0;
    for (auto &f : files) {
        tooling::ClangTool T(DB, {f});
        T.setPrintErrorMessage(false);
        int r = T.run(tooling::newFrontendActionFactory<Action>().get());
        if (r) { llvm::errs() << "FAILED " << f << "\n"; rc = 1; }
        else { json::Object o{{"kind", "tu"}, {"file", f}}; *Out << json::Value(std::move(o)) << "\n"; }
    }
    Out->flush();
    return rc;
}
