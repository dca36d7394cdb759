// xport: dump the resolved, typed syntax of every function defined under a root
// directory as compact JSON (one JSON document per translation unit).
// Usage: xport OUT.json ROOT FILE -- <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root, OutPath;

namespace {
class Dumper {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<const Decl *, int> Ids;
public:
    Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
        PP.SuppressScope = false;
    }
    int id(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = Ids.find(D);
        if (it != Ids.end()) return it->second;
        int n = Ids.size() + 1;
        Ids[D] = n;
        return n;
    }
    std::string file(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        return SM.getFilename(L).str();
    }
    int line(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return 0;
        return SM.getExpansionLineNumber(L);
    }
    bool inRoot(SourceLocation L) {
        std::string f = file(L);
        return f.compare(0, Root.size(), Root) == 0;
    }
    std::string ty(QualType T) {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string fname(const FunctionDecl *F) {
        std::string s;
        llvm::raw_string_ostream os(s);
        F->getNameForDiagnostic(os, PP, true);
        os.flush();
        s += "(";
        bool first = true;
        for (auto *P : F->parameters()) {
            if (!first) s += ",";
            first = false;
            s += ty(P->getType().getUnqualifiedType());
        }
        if (F->isVariadic()) s += ",...";
        s += ")";
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isConst()) s += "const";
            if (M->getParent()->isLambda()) s += "@" + std::to_string(line(M->getLocation())) + ":" + std::to_string(C.getSourceManager().getSpellingColumnNumber(C.getSourceManager().getExpansionLoc(M->getLocation())));
        }
        return s;
    }
    std::string qname(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->getNameForDiagnostic(os, PP, true);
        return os.str();
    }
    Value loc(SourceLocation L) { return line(L); }

    Value stmts(ArrayRef<const Stmt *> A);

    Object mk(const char *k, const Stmt *S) {
        Object o;
        o["k"] = k;
        o["l"] = line(S->getBeginLoc());
        return o;
    }
    Value callee(const FunctionDecl *F) {
        Object o;
        o["fn"] = fname(F);
        std::string b = F->getNameAsString();
        o["name"] = b;
        o["qn"] = qname(F);
        o["sys"] = !inRoot(F->getLocation());
        o["noret"] = F->isNoReturn();
        o["ret"] = ty(F->getReturnType());
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qname(M->getParent());
            o["const"] = M->isConst();
            o["static"] = M->isStatic();
            o["virt"] = M->isVirtual();
            if (M->getParent()->isLambda()) o["lam"] = true;
        }
        Array pt;
        for (auto *P : F->parameters()) pt.push_back(ty(P->getType()));
        o["pt"] = std::move(pt);
        return std::move(o);
    }
    Value var(const ValueDecl *D) {
        Object o;
        o["name"] = D->getNameAsString();
        if (auto *V = dyn_cast<VarDecl>(D)) {
            bool local = V->isLocalVarDeclOrParm() && !V->isStaticLocal();
            o["sc"] = V->isStaticLocal() ? "static" : (isa<ParmVarDecl>(V) ? "param" : (local ? "local" : "global"));
            if (!local) o["qn"] = qname(V);
            if (V->isStaticLocal()) o["id"] = id(V);
        }
        o["id"] = id(D);
        o["t"] = ty(D->getType());
        return std::move(o);
    }
    Value expr(const Expr *E) {
        if (!E) return nullptr;
        // transparent nodes
        if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
            Object o = mk("temp", E);
            o["e"] = expr(X->getSubExpr());
            o["t"] = ty(E->getType());
            return std::move(o);
        }
        if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
        if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
        // constants
        if (!E->isValueDependent() && E->isPRValue() && E->getType()->isIntegralOrEnumerationType() && !isa<CallExpr>(E)) {
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
                Object o = mk("int", E);
                o["v"] = R.Val.getInt().isRepresentableByInt64() ? R.Val.getInt().getExtValue() : (int64_t)R.Val.getInt().getZExtValue();
                o["t"] = ty(E->getType());
                return std::move(o);
            }
        }
        if (auto *X = dyn_cast<CastExpr>(E)) {
            CastKind ck = X->getCastKind();
            switch (ck) {
            case CK_NoOp: case CK_FunctionToPointerDecay: case CK_UserDefinedConversion:
            case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr: case CK_ToVoid:
                if (ck == CK_ToVoid || !isa<ExplicitCastExpr>(X) || ck != CK_NoOp) return expr(X->getSubExpr());
                return expr(X->getSubExpr());
            default: break;
            }
            Object o = mk(ck == CK_LValueToRValue ? "load" : "cast", E);
            if (ck != CK_LValueToRValue) {
                o["ck"] = X->getCastKindName();
                o["expl"] = isa<ExplicitCastExpr>(X);
            }
            o["t"] = ty(E->getType());
            o["e"] = expr(X->getSubExpr());
            return std::move(o);
        }
        if (auto *X = dyn_cast<FloatingLiteral>(E)) {
            Object o = mk("flt", E);
            o["v"] = X->getValueAsApproximateDouble();
            return std::move(o);
        }
        if (auto *X = dyn_cast<StringLiteral>(E)) {
            Object o = mk("str", E);
            o["v"] = X->isOrdinary() ? llvm::json::fixUTF8(X->getString()) : std::string("?");
            return std::move(o);
        }
        if (auto *X = dyn_cast<CharacterLiteral>(E)) { Object o = mk("int", E); o["v"] = (int64_t)X->getValue(); o["t"]="char"; return std::move(o); }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("null", E);
        if (isa<CXXThisExpr>(E)) { Object o = mk("this", E); o["t"] = ty(E->getType()); return std::move(o); }
        if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *D = X->getDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D)) {
                Object o = mk("fref", E);
                o["f"] = callee(F);
                return std::move(o);
            }
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                Object o = mk("int", E);
                o["v"] = EC->getInitVal().getExtValue();
                o["en"] = EC->getNameAsString();
                return std::move(o);
            }
            Object o = mk("var", E);
            o["v"] = var(D);
            return std::move(o);
        }
        if (auto *X = dyn_cast<MemberExpr>(E)) {
            const ValueDecl *D = X->getMemberDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D)) {
                Object o = mk("fref", E);
                o["f"] = callee(F);
                o["b"] = expr(X->getBase());
                return std::move(o);
            }
            if (auto *V = dyn_cast<VarDecl>(D)) { Object o = mk("var", E); o["v"] = var(V); return std::move(o); }
            Object o = mk("mem", E);
            o["b"] = expr(X->getBase());
            o["arrow"] = X->isArrow();
            o["f"] = D->getNameAsString();
            if (auto *FD = dyn_cast<FieldDecl>(D)) o["cls"] = qname(FD->getParent());
            o["t"] = ty(E->getType());
            return std::move(o);
        }
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
            Object o = mk("idx", E);
            o["b"] = expr(X->getBase());
            o["i"] = expr(X->getIdx());
            o["t"] = ty(E->getType());
            return std::move(o);
        }
        if (auto *X = dyn_cast<UnaryOperator>(E)) {
            Object o = mk("un", E);
            o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            o["post"] = X->isPostfix();
            o["e"] = expr(X->getSubExpr());
            o["t"] = ty(E->getType());
            return std::move(o);
        }
        if (auto *X = dyn_cast<BinaryOperator>(E)) {
            Object o = mk("bin", E);
            o["op"] = X->getOpcodeStr().str();
            o["a"] = expr(X->getLHS());
            o["b"] = expr(X->getRHS());
            o["t"] = ty(E->getType());
            if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) o["ct"] = ty(CA->getComputationResultType());
            return std::move(o);
        }
        if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
            Object o = mk("cond", E);
            o["c"] = expr(X->getCond());
            o["a"] = expr(X->getTrueExpr());
            o["b"] = expr(X->getFalseExpr());
            o["t"] = ty(E->getType());
            return std::move(o);
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            Object o = mk("ctor", E);
            o["f"] = callee(X->getConstructor());
            o["t"] = ty(E->getType());
            o["copy"] = X->getConstructor()->isCopyOrMoveConstructor();
            o["triv"] = X->getConstructor()->isTrivial();
            o["zero"] = X->requiresZeroInitialization();
            o["impl"] = X->getConstructor()->isImplicit();
            Array a;
            for (auto *A : X->arguments()) a.push_back(expr(A));
            o["a"] = std::move(a);
            return std::move(o);
        }
        if (auto *X = dyn_cast<CallExpr>(E)) {
            Object o = mk("call", E);
            o["t"] = ty(E->getType());
            o["lv"] = E->isLValue();
            unsigned start = 0;
            const FunctionDecl *F = X->getDirectCallee();
            if (F) o["f"] = callee(F);
            if (auto *M = dyn_cast<CXXMemberCallExpr>(X)) {
                o["obj"] = expr(M->getImplicitObjectArgument());
                if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) o["arrow"] = ME->isArrow();
                else if (auto *BO = dyn_cast<BinaryOperator>(M->getCallee()->IgnoreParens())) {
                    o["arrow"] = BO->getOpcode() == BO_PtrMemI;
                    o["fp"] = expr(BO->getRHS());
                } else o["arrow"] = false;
            } else if (isa<CXXOperatorCallExpr>(X)) {
                o["oper"] = true;
                if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
                    o["obj"] = expr(X->getArg(0));
                    o["arrow"] = false;
                    start = 1;
                }
            }
            if (!F && !isa<CXXMemberCallExpr>(X)) o["fp"] = expr(X->getCallee());
            Array a;
            for (unsigned i = start; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
            o["a"] = std::move(a);
            return std::move(o);
        }
        if (auto *X = dyn_cast<InitListExpr>(E)) {
            if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
            Object o = mk("ilist", E);
            Array a;
            for (auto *A : X->inits()) a.push_back(expr(A));
            o["a"] = std::move(a);
            o["t"] = ty(X->getType());
            if (X->hasArrayFiller()) o["fill"] = expr(X->getArrayFiller());
            return std::move(o);
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { Object o = mk("zero", E); o["t"] = ty(E->getType()); return std::move(o); }
        if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            Object o = mk("new", E);
            o["t"] = ty(X->getAllocatedType());
            o["arr"] = X->isArray();
            if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
            if (X->getInitializer()) o["init"] = expr(X->getInitializer());
            return std::move(o);
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
            Object o = mk("del", E);
            o["arr"] = X->isArrayForm();
            o["e"] = expr(X->getArgument());
            return std::move(o);
        }
        if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
            Object o = mk("throw", E);
            o["e"] = expr(X->getSubExpr());
            return std::move(o);
        }
        if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Object o = mk("sizeof", E);
            o["t"] = ty(X->getTypeOfArgument());
            return std::move(o);
        }
        if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { (void)X; return mk("typeid", E); }
        if (auto *X = dyn_cast<PredefinedExpr>(E)) { (void)X; Object o = mk("str", E); o["v"] = "__func__"; return std::move(o); }
        if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<LambdaExpr>(E)) {
            Object o = mk("lambda", E);
            o["f"] = fname(X->getCallOperator());
            o["t"] = ty(X->getType());
            Array caps;
            for (auto &Cp : X->captures()) {
                Object c;
                if (Cp.capturesThis()) { c["this"] = true; caps.push_back(std::move(c)); continue; }
                if (!Cp.capturesVariable()) continue;
                auto *CV = Cp.getCapturedVar();
                c["id"] = id(CV);
                c["v"] = var(CV);
                c["ref"] = Cp.getCaptureKind() == LCK_ByRef;
                if (auto *VD = dyn_cast<VarDecl>(CV)) if (VD->isInitCapture() && VD->getInit()) c["init"] = expr(VD->getInit());
                caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
            return std::move(o);
        }
        Object o = mk("other", E);
        o["cls"] = E->getStmtClassName();
        o["t"] = ty(E->getType());
        Array a;
        for (const Stmt *Ch : E->children())
            if (Ch) { if (auto *CE = dyn_cast<Expr>(Ch)) a.push_back(expr(CE)); else a.push_back(stmt(Ch)); }
        o["a"] = std::move(a);
        return std::move(o);
    }
    Value decl(const VarDecl *V) {
        Object o;
        o["k"] = "decl";
        o["l"] = line(V->getLocation());
        o["v"] = var(V);
        o["static"] = V->isStaticLocal();
        o["ref"] = V->getType()->isReferenceType();
        o["dt"] = V->getType().getAsString(PP);
        if (V->getInit()) o["init"] = expr(V->getInit());
        return std::move(o);
    }
    Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) {
            Object o = mk("expr", S);
            o["e"] = expr(E);
            return std::move(o);
        }
        if (auto *X = dyn_cast<CompoundStmt>(S)) {
            Object o = mk("block", S);
            Array a;
            for (auto *Ch : X->body()) a.push_back(stmt(Ch));
            o["a"] = std::move(a);
            o["el"] = line(X->getEndLoc());
            return std::move(o);
        }
        if (auto *X = dyn_cast<DeclStmt>(S)) {
            Object o = mk("decls", S);
            Array a;
            for (auto *D : X->decls())
                if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(decl(V));
            o["a"] = std::move(a);
            return std::move(o);
        }
        if (auto *X = dyn_cast<IfStmt>(S)) {
            Object o = mk("if", S);
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) o["cv"] = decl(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            o["a"] = stmt(X->getThen());
            if (X->getElse()) o["b"] = stmt(X->getElse());
            return std::move(o);
        }
        if (auto *X = dyn_cast<WhileStmt>(S)) {
            Object o = mk("while", S);
            if (X->getConditionVariable()) o["cv"] = decl(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            o["a"] = stmt(X->getBody());
            return std::move(o);
        }
        if (auto *X = dyn_cast<DoStmt>(S)) {
            Object o = mk("do", S);
            o["c"] = expr(X->getCond());
            o["a"] = stmt(X->getBody());
            return std::move(o);
        }
        if (auto *X = dyn_cast<ForStmt>(S)) {
            Object o = mk("for", S);
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getCond()) o["c"] = expr(X->getCond());
            if (X->getInc()) o["inc"] = expr(X->getInc());
            o["a"] = stmt(X->getBody());
            return std::move(o);
        }
        if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            Object o = mk("rfor", S);
            o["v"] = decl(X->getLoopVariable());
            o["r"] = expr(X->getRangeInit());
            o["a"] = stmt(X->getBody());
            return std::move(o);
        }
        if (auto *X = dyn_cast<SwitchStmt>(S)) {
            Object o = mk("switch", S);
            o["c"] = expr(X->getCond());
            o["a"] = stmt(X->getBody());
            return std::move(o);
        }
        if (auto *X = dyn_cast<CaseStmt>(S)) {
            Object o = mk("case", S);
            o["c"] = expr(X->getLHS());
            if (X->getRHS()) o["hi"] = expr(X->getRHS());
            o["a"] = stmt(X->getSubStmt());
            return std::move(o);
        }
        if (auto *X = dyn_cast<DefaultStmt>(S)) {
            Object o = mk("default", S);
            o["a"] = stmt(X->getSubStmt());
            return std::move(o);
        }
        if (auto *X = dyn_cast<ReturnStmt>(S)) {
            Object o = mk("ret", S);
            if (X->getRetValue()) o["e"] = expr(X->getRetValue());
            return std::move(o);
        }
        if (isa<BreakStmt>(S)) return mk("break", S);
        if (isa<ContinueStmt>(S)) return mk("continue", S);
        if (isa<NullStmt>(S)) return mk("null_stmt", S);
        if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            Object o = mk("try", S);
            o["a"] = stmt(X->getTryBlock());
            Array h;
            for (unsigned i = 0; i < X->getNumHandlers(); i++) {
                Object ho;
                auto *H = X->getHandler(i);
                if (H->getExceptionDecl()) ho["v"] = decl(H->getExceptionDecl());
                ho["a"] = stmt(H->getHandlerBlock());
                h.push_back(std::move(ho));
            }
            o["h"] = std::move(h);
            return std::move(o);
        }
        if (auto *X = dyn_cast<LabelStmt>(S)) { Object o = mk("label", S); o["name"] = X->getName(); o["a"] = stmt(X->getSubStmt()); return std::move(o); }
        if (auto *X = dyn_cast<GotoStmt>(S)) { Object o = mk("goto", S); o["name"] = X->getLabel()->getNameAsString(); return std::move(o); }
        if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        Object o = mk("sother", S);
        o["cls"] = S->getStmtClassName();
        return std::move(o);
    }
    Value function(const FunctionDecl *F) {
        Object o;
        o["fn"] = fname(F);
        o["name"] = F->getNameAsString();
        o["qn"] = qname(F);
        o["file"] = file(F->getLocation());
        o["l"] = line(F->getBeginLoc());
        o["el"] = line(F->getEndLoc());
        o["ret"] = ty(F->getReturnType());
        o["retref"] = F->getReturnType()->isReferenceType();
        o["internal"] = !F->isExternallyVisible();
        Array ps;
        for (auto *P : F->parameters()) {
            Object p;
            p["name"] = P->getNameAsString();
            p["id"] = id(P);
            p["t"] = ty(P->getType());
            p["ref"] = P->getType()->isReferenceType();
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qname(M->getParent());
            o["const"] = M->isConst();
            o["static"] = M->isStatic();
            o["access"] = (int)M->getAccess();
        }
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            o["isctor"] = true;
            o["copy"] = K->isCopyOrMoveConstructor();
            Array in;
            for (auto *I : K->inits()) {
                Object i;
                if (I->isAnyMemberInitializer()) i["f"] = I->getAnyMember()->getNameAsString();
                else if (I->isBaseInitializer()) i["base"] = ty(QualType(I->getBaseClass(), 0));
                else i["deleg"] = true;
                i["written"] = I->isWritten();
                i["e"] = expr(I->getInit());
                i["l"] = line(I->getSourceLocation());
                in.push_back(std::move(i));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(F)) o["isdtor"] = true;
        o["implicit"] = F->isImplicit() || F->isDefaulted();
        o["noret"] = F->isNoReturn();
        o["body"] = stmt(F->getBody());
        return std::move(o);
    }
    Value record(const CXXRecordDecl *R) {
        Object o;
        o["qn"] = qname(R);
        o["file"] = file(R->getLocation());
        o["l"] = line(R->getBeginLoc());
        Array fs;
        for (auto *F : R->fields()) {
            Object f;
            f["name"] = F->getNameAsString();
            f["t"] = ty(F->getType());
            f["dt"] = F->getType().getAsString(PP);
            f["l"] = line(F->getLocation());
            f["access"] = (int)F->getAccess();
            if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
            fs.push_back(std::move(f));
        }
        o["fields"] = std::move(fs);
        Array bs;
        for (auto &B : R->bases()) bs.push_back(ty(B.getType()));
        o["bases"] = std::move(bs);
        Array ms;
        for (auto *M : R->methods()) {
            Object m;
            m["fn"] = fname(M);
            m["implicit"] = M->isImplicit();
            m["defaulted"] = M->isDefaulted();
            m["deleted"] = M->isDeleted();
            m["access"] = (int)M->getAccess();
            ms.push_back(std::move(m));
        }
        o["methods"] = std::move(ms);
        return std::move(o);
    }
    Value enumd(const EnumDecl *E) {
        Object o;
        o["qn"] = qname(E);
        o["file"] = file(E->getLocation());
        Array a;
        for (auto *K : E->enumerators()) a.push_back(Array{K->getNameAsString(), K->getInitVal().getExtValue()});
        o["vals"] = std::move(a);
        return std::move(o);
    }
    Value global(const VarDecl *V) {
        Object o;
        o["v"] = var(V);
        o["file"] = file(V->getLocation());
        o["l"] = line(V->getLocation());
        o["dt"] = V->getType().getAsString(PP);
        if (V->getInit() && !V->getInit()->isValueDependent()) o["init"] = expr(V->getInit());
        return std::move(o);
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Dumper D;
    ASTContext &C;
    Array Funcs, Recs, Enums, Globals, Protos;
    std::set<const Decl *> Seen;
    Visitor(ASTContext &c) : D(c), C(c) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!D.inRoot(F->getLocation())) return true;
        if (F->isTemplated()) return true;
        if (!F->doesThisDeclarationHaveABody()) {
            Object o;
            o["fn"] = D.fname(F);
            o["file"] = D.file(F->getLocation());
            o["l"] = D.line(F->getLocation());
            Protos.push_back(std::move(o));
            return true;
        }
        if (F->getDescribedFunctionTemplate()) return true;
        if (!Seen.insert(F).second) return true;
        Funcs.push_back(D.function(F));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!D.inRoot(R->getLocation()) || !R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
        if (!Seen.insert(R).second) return true;
        Recs.push_back(D.record(R));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if (!D.inRoot(E->getLocation())) return true;
        Enums.push_back(D.enumd(E));
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (!D.inRoot(V->getLocation())) return true;
        if (V->isLocalVarDeclOrParm()) return true;
        if (V->getDeclContext()->isDependentContext()) return true;
        Globals.push_back(D.global(V));
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext &C) override {
        Visitor V(C);
        V.TraverseDecl(C.getTranslationUnitDecl());
        Object o;
        o["funcs"] = std::move(V.Funcs);
        o["recs"] = std::move(V.Recs);
        o["enums"] = std::move(V.Enums);
        o["globals"] = std::move(V.Globals);
        o["protos"] = std::move(V.Protos);
        std::error_code EC;
        llvm::raw_fd_ostream os(OutPath, EC);
        os << Value(std::move(o));
    }
};
class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
        return std::make_unique<Consumer>();
    }
};
} // namespace

int main(int argc, char **argv) {
    if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
    OutPath = argv[1];
    Root = argv[2];
    std::string File = argv[3];
    std::vector<std::string> Args;
    for (int i = 5; i < argc; i++) Args.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB("/", Args);
    tooling::ClangTool T(DB, {File});
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
