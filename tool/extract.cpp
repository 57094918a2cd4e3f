// hzx: dumps the resolved syntax tree of one translation unit as JSON.
// Everything printed comes from clang's semantic analysis (resolved callees,
// types, implicit conversions that change a value, constant values).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Stmt.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;

static std::vector<std::string> Roots;

static std::string quote(llvm::StringRef s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}

struct Obj {
    std::string s = "{";
    bool first = true;
    Obj &raw(const char *k, const std::string &v) {
        if (!first) s += ",";
        first = false;
        s += "\""; s += k; s += "\":"; s += v;
        return *this;
    }
    Obj &str(const char *k, llvm::StringRef v) { return raw(k, quote(v)); }
    Obj &num(const char *k, long long v) { return raw(k, std::to_string(v)); }
    Obj &flag(const char *k, bool v) { if (v) raw(k, "true"); return *this; }
    std::string end() const { return s + "}"; }
};

static std::string arr(const std::vector<std::string> &v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += v[i]; }
    return o + "]";
}

class Dumper {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<std::string, int> TypeIx;
    std::vector<std::string> TypeOut;
    std::map<const Decl *, int> Ids;
    std::map<std::string, int> FileIx;
    std::vector<std::string> Files;
    std::set<const Decl *> DoneFn, DoneRec;
    std::vector<std::string> Fns, Recs, Enums, Globals;
    std::vector<const FunctionDecl *> Work;

public:
    explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
    }

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto P = SM.getPresumedLoc(L, false);
        if (P.isInvalid()) return "";
        llvm::SmallString<256> R;
        if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L)))
            if (!FE->getFileEntry().tryGetRealPathName().empty())
                return FE->getFileEntry().tryGetRealPathName().str();
        return P.getFilename();
    }

    bool inRoots(SourceLocation L) {
        if (L.isInvalid()) return false;
        auto F = fileOf(L);
        for (auto &R : Roots) if (llvm::StringRef(F).starts_with(R)) return true;
        return false;
    }

    int line(SourceLocation L) {
        if (L.isInvalid()) return 0;
        return (int) SM.getExpansionLineNumber(L);
    }

    int fileIx(SourceLocation L) {
        auto F = fileOf(L);
        auto it = FileIx.find(F);
        if (it != FileIx.end()) return it->second;
        int n = (int) Files.size();
        FileIx[F] = n;
        Files.push_back(quote(F));
        return n;
    }

    int idOf(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = Ids.find(D);
        if (it != Ids.end()) return it->second;
        int n = (int) Ids.size() + 1;
        Ids[D] = n;
        return n;
    }

    // qualified name without template arguments
    std::string qname(const NamedDecl *D) {
        std::string s;
        if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) s = CD->getParent()->getNameAsString();
        else if (auto *DD = dyn_cast<CXXDestructorDecl>(D)) s = "~" + DD->getParent()->getNameAsString();
        else s = D->getNameAsString();
        if (s.empty()) s = "(anonymous@" + std::to_string(line(D->getLocation())) + ")";
        const DeclContext *DC = D->getDeclContext();
        while (DC && !DC->isTranslationUnit()) {
            if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
                if (!N->isInline() && !N->isAnonymousNamespace()) s = N->getNameAsString() + "::" + s;
            } else if (auto *T = dyn_cast<TagDecl>(DC)) {
                std::string n = T->getNameAsString();
                if (n.empty()) n = "(anonymous@" + std::to_string(line(T->getLocation())) + ")";
                s = n + "::" + s;
            } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
                s = F->getNameAsString() + "()::" + s;
            }
            DC = DC->getParent();
        }
        return s;
    }

    std::string recName(const CXXRecordDecl *R) {
        std::string s;
        llvm::raw_string_ostream os(s);
        C.getRecordType(R).getCanonicalType().getUnqualifiedType().print(os, PP);
        return s;
    }

    std::string fnId(const FunctionDecl *F) {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            os << recName(M->getParent()) << "::";
            if (isa<CXXConstructorDecl>(M)) os << "(ctor)";
            else if (isa<CXXDestructorDecl>(M)) os << "(dtor)";
            else os << F->getNameAsString();
        } else os << qname(F);
        if (auto *TA = F->getTemplateSpecializationArgs()) {
            os << "<";
            for (unsigned i = 0; i < TA->size(); i++) {
                if (i) os << ",";
                TA->get(i).print(PP, os, true);
            }
            os << ">";
        }
        os << "(";
        for (unsigned i = 0; i < F->getNumParams(); i++) {
            if (i) os << ",";
            F->getParamDecl(i)->getType().getCanonicalType().print(os, PP);
        }
        os << ")";
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) os << "const";
        return os.str();
    }

    int typeIx(QualType T) {
        if (T.isNull()) return -1;
        T = T.getCanonicalType();
        std::string key;
        {
            llvm::raw_string_ostream os(key);
            T.print(os, PP);
        }
        auto it = TypeIx.find(key);
        if (it != TypeIx.end()) return it->second;
        int n = (int) TypeOut.size();
        TypeIx[key] = n;
        TypeOut.push_back("");
        Obj o;
        o.str("n", key);
        o.flag("const", T.isConstQualified());
        const Type *U = T.getTypePtr();
        if (U->isDependentType()) o.str("c", "dep");
        else if (U->isBooleanType()) o.str("c", "bool").num("w", 1);
        else if (auto *E = U->getAs<EnumType>()) {
            o.str("c", "enum").str("rec", qname(E->getDecl()));
            if (E->getDecl()->isComplete()) {
                auto I = E->getDecl()->getIntegerType();
                if (!I.isNull()) o.num("w", (long long) C.getTypeSize(I)).flag("s", I->isSignedIntegerType());
            }
        } else if (U->isIntegerType()) o.str("c", "int").num("w", (long long) C.getTypeSize(T)).flag("s", U->isSignedIntegerType());
        else if (U->isRealFloatingType()) o.str("c", "float").num("w", (long long) C.getTypeSize(T));
        else if (U->isVoidType()) o.str("c", "void");
        else if (U->isNullPtrType()) o.str("c", "nullptr");
        else if (auto *R = U->getAs<ReferenceType>()) o.str("c", "ref").flag("rv", U->isRValueReferenceType()).num("p", typeIx(R->getPointeeType()));
        else if (auto *P = U->getAs<PointerType>()) o.str("c", "ptr").num("p", typeIx(P->getPointeeType()));
        else if (auto *A = C.getAsConstantArrayType(T)) o.str("c", "arr").num("p", typeIx(A->getElementType())).num("len", (long long) A->getSize().getZExtValue());
        else if (auto *A2 = C.getAsArrayType(T)) o.str("c", "arr").num("p", typeIx(A2->getElementType()));
        else if (auto *RD = U->getAsCXXRecordDecl()) {
            o.str("c", "rec").str("rec", recName(RD)).str("q", qname(RD));
            o.flag("lambda", RD->isLambda());
            if (RD->hasDefinition()) o.flag("trivdtor", RD->hasTrivialDestructor());
            if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
                std::vector<std::string> a;
                for (auto &TA : TS->getTemplateArgs().asArray())
                    if (TA.getKind() == TemplateArgument::Type) a.push_back(std::to_string(typeIx(TA.getAsType())));
                o.raw("targs", arr(a));
            }
        } else if (U->isRecordType()) o.str("c", "rec").str("rec", key);
        else if (U->isFunctionType()) o.str("c", "fn");
        else o.str("c", "other");
        TypeOut[n] = o.end();
        return n;
    }

    // ---- expressions -----------------------------------------------------
    Obj base(const char *k, const Expr *E) {
        Obj o;
        o.str("k", k);
        o.num("t", typeIx(E->getType()));
        o.num("l", line(E->getExprLoc()));
        if (E->isLValue()) o.flag("lv", true);
        return o;
    }

    void addCV(Obj &o, const Expr *E) {
        if (E->isValueDependent() || E->isTypeDependent()) return;
        if (!E->getType()->isIntegralOrEnumerationType()) return;
        if (E->isGLValue()) return;
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
            llvm::SmallString<32> s;
            R.Val.getInt().toString(s, 10);
            o.raw("cv", std::string(s));
        }
    }

    std::string exprs(llvm::ArrayRef<const Expr *> es) {
        std::vector<std::string> v;
        for (auto *e : es) v.push_back(expr(e));
        return arr(v);
    }

    template<class It> std::string exprRange(It b, It e) {
        std::vector<std::string> v;
        for (; b != e; ++b) v.push_back(expr(cast_or_null<Expr>(static_cast<const Stmt *>(*b))));
        return arr(v);
    }

    std::string expr(const Expr *E) {
        if (!E) return "null";
        switch (E->getStmtClass()) {
            case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
            case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
            case Stmt::MaterializeTemporaryExprClass: return expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
            case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
            case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
            case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
            case Stmt::CXXStdInitializerListExprClass: {
                Obj o = base("stdlist", E);
                o.raw("e", expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr()));
                return o.end();
            }
            case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
            case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
            case Stmt::CXXRewrittenBinaryOperatorClass: return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
            case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(E)->getSourceExpr());
            default: break;
        }
        if (auto *I = dyn_cast<IntegerLiteral>(E)) {
            Obj o = base("lit", E);
            llvm::SmallString<32> s;
            I->getValue().toString(s, 10, I->getType()->isSignedIntegerType());
            o.raw("cv", std::string(s));
            return o.end();
        }
        if (auto *I = dyn_cast<CharacterLiteral>(E)) { Obj o = base("lit", E); o.num("cv", I->getValue()); return o.end(); }
        if (auto *I = dyn_cast<CXXBoolLiteralExpr>(E)) { Obj o = base("lit", E); o.num("cv", I->getValue()); return o.end(); }
        if (auto *I = dyn_cast<FloatingLiteral>(E)) {
            Obj o = base("flt", E);
            o.str("v", std::to_string(I->getValueAsApproximateDouble()));
            return o.end();
        }
        if (auto *I = dyn_cast<clang::StringLiteral>(E)) {
            Obj o = base("str", E);
            o.str("v", I->isOrdinary() || I->isUTF8() ? I->getBytes() : llvm::StringRef("?"));
            return o.end();
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return base("null", E).end();
        if (isa<CXXThisExpr>(E)) return base("this", E).end();
        if (auto *PE = dyn_cast<PredefinedExpr>(E)) { Obj o = base("str", E); o.str("v", PE->getFunctionName() ? PE->getFunctionName()->getString() : ""); return o.end(); }
        if (auto *D = dyn_cast<DeclRefExpr>(E)) {
            Obj o = base("ref", E);
            const ValueDecl *V = D->getDecl();
            o.str("n", V->getNameAsString());
            if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
                o.str("d", "enum").str("q", qname(EC));
                llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
                o.raw("cv", std::string(s));
            } else if (auto *FD = dyn_cast<FunctionDecl>(V)) {
                o.str("d", "fn").str("q", qname(FD)).str("fn", fnId(FD));
                note(FD, D->getLocation());
            } else if (auto *VD = dyn_cast<VarDecl>(V)) {
                if (VD->hasGlobalStorage() && !VD->isStaticLocal()) usedVar(VD, D->getLocation());
                if (VD->hasGlobalStorage() && !VD->isStaticLocal()) o.str("d", "global").str("q", qname(VD));
                else { o.str("d", isa<ParmVarDecl>(VD) ? "parm" : "var").num("id", idOf(VD)); o.flag("static", VD->isStaticLocal()); }
                addCV(o, E);
                if (VD->getType().isConstQualified() && VD->hasInit() && VD->getType()->isIntegralOrEnumerationType() && !VD->getInit()->isValueDependent()) {
                    Expr::EvalResult R;
                    if (VD->getInit()->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
                        llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
                        o.raw("cv", std::string(s));
                    }
                }
            } else if (auto *B = dyn_cast<BindingDecl>(V)) {
                o.str("d", "var").num("id", idOf(B));
            } else o.str("d", "other");
            return o.end();
        }
        if (auto *M = dyn_cast<MemberExpr>(E)) {
            auto *V = M->getMemberDecl();
            if (auto *VD = dyn_cast<VarDecl>(V)) {
                usedVar(VD, M->getExprLoc());
                Obj o = base("ref", E);
                o.str("n", VD->getNameAsString()).str("d", "global").str("q", qname(VD));
                return o.end();
            }
            Obj o = base("mem", E);
            o.str("n", V->getNameAsString()).str("q", qname(V));
            o.flag("arrow", M->isArrow());
            o.raw("b", expr(M->getBase()));
            if (auto *FD = dyn_cast<FunctionDecl>(V)) { o.str("fn", fnId(FD)); note(FD, M->getExprLoc()); }
            return o.end();
        }
        if (auto *CE = dyn_cast<CastExpr>(E)) {
            switch (CE->getCastKind()) {
                case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
                case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
                    return expr(CE->getSubExpr());
                case CK_DerivedToBase: case CK_UncheckedDerivedToBase: {
                    Obj o = base("upcast", E); o.raw("e", expr(CE->getSubExpr())); return o.end();
                }
                case CK_NullToPointer: { Obj o = base("null", E); return o.end(); }
                default: {
                    Obj o = base("cast", E);
                    o.str("ck", CE->getCastKindName());
                    o.flag("x", isa<ExplicitCastExpr>(CE));
                    addCV(o, E);
                    o.raw("e", expr(CE->getSubExpr()));
                    return o.end();
                }
            }
        }
        if (auto *U = dyn_cast<UnaryOperator>(E)) {
            if (U->getOpcode() == UO_Extension) return expr(U->getSubExpr());
            Obj o = base("un", E);
            std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) op = "p" + op;
            o.str("op", op);
            addCV(o, E);
            o.raw("e", expr(U->getSubExpr()));
            return o.end();
        }
        if (auto *B = dyn_cast<BinaryOperator>(E)) {
            Obj o = base("bin", E);
            o.str("op", B->getOpcodeStr());
            addCV(o, E);
            if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) {
                o.num("clt", typeIx(CA->getComputationLHSType()));
                o.num("crt", typeIx(CA->getComputationResultType()));
            }
            o.raw("a", expr(B->getLHS())).raw("b", expr(B->getRHS()));
            return o.end();
        }
        if (auto *Q = dyn_cast<ConditionalOperator>(E)) {
            Obj o = base("cond", E);
            addCV(o, E);
            o.raw("c", expr(Q->getCond())).raw("a", expr(Q->getTrueExpr())).raw("b", expr(Q->getFalseExpr()));
            return o.end();
        }
        if (auto *Q = dyn_cast<BinaryConditionalOperator>(E)) {
            Obj o = base("cond", E);
            o.raw("c", expr(Q->getCommon())).raw("a", expr(Q->getCommon())).raw("b", expr(Q->getFalseExpr()));
            return o.end();
        }
        if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
            Obj o = base("idx", E);
            o.raw("b", expr(A->getBase())).raw("i", expr(A->getIdx()));
            return o.end();
        }
        if (auto *CC = dyn_cast<CXXConstructExpr>(E)) {
            Obj o = base("ctor", E);
            auto *CD = CC->getConstructor();
            o.str("cls", recName(CD->getParent())).str("q", qname(CD->getParent())).str("fn", fnId(CD));
            note(CD, CC->getExprLoc());
            o.flag("copy", CD->isCopyOrMoveConstructor());
            o.flag("conv", CD->isConvertingConstructor(false));
            o.flag("implicit", CD->isImplicit() || CD->isDefaulted());
            o.flag("zero", CC->requiresZeroInitialization());
            o.raw("args", exprRange(CC->arg_begin(), CC->arg_end()));
            return o.end();
        }
        if (auto *CI = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            Obj o = base("ctor", E);
            o.str("cls", recName(CI->getConstructor()->getParent())).str("q", qname(CI->getConstructor()->getParent())).str("fn", fnId(CI->getConstructor()));
            o.raw("args", "[]");
            return o.end();
        }
        if (auto *L = dyn_cast<LambdaExpr>(E)) {
            Obj o = base("lambda", E);
            std::vector<std::string> caps;
            unsigned i = 0;
            auto initIt = L->capture_init_begin();
            for (auto &cap : L->captures()) {
                Obj c;
                if (cap.capturesThis()) c.str("n", "this").flag("ref", true);
                else if (cap.capturesVariable()) {
                    auto *V = cap.getCapturedVar();
                    c.str("n", V->getNameAsString()).num("id", idOf(V));
                    c.flag("ref", cap.getCaptureKind() == LCK_ByRef);
                    if (auto *VD = dyn_cast<VarDecl>(V)) if (VD->isInitCapture()) c.raw("init", expr(VD->getInit()));
                }
                caps.push_back(c.end());
                i++;
                ++initIt;
            }
            o.raw("caps", arr(caps));
            auto *M = L->getCallOperator();
            o.raw("params", params(M));
            o.num("rt", typeIx(M->getReturnType()));
            o.flag("mutable", !M->isConst());
            o.raw("body", stmt(L->getBody()));
            o.num("file", fileIx(L->getBeginLoc()));
            o.num("end", line(L->getEndLoc()));
            return o.end();
        }
        if (auto *N = dyn_cast<CXXNewExpr>(E)) {
            Obj o = base("new", E);
            o.num("at", typeIx(N->getAllocatedType()));
            if (N->isArray()) {
                o.flag("arr", true);
                if (auto S = N->getArraySize()) o.raw("n", expr(*S));
            }
            if (N->getInitializer()) o.raw("init", expr(N->getInitializer()));
            else if (N->getConstructExpr()) o.raw("init", expr(N->getConstructExpr()));
            return o.end();
        }
        if (auto *Dl = dyn_cast<CXXDeleteExpr>(E)) {
            Obj o = base("delete", E);
            o.flag("arr", Dl->isArrayForm());
            o.raw("e", expr(Dl->getArgument()));
            return o.end();
        }
        if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
            Obj o = base("throw", E);
            if (T->getSubExpr()) {
                o.num("tt", typeIx(T->getSubExpr()->getType()));
                o.raw("e", expr(T->getSubExpr()));
            }
            return o.end();
        }
        if (auto *S = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Obj o = base("sizeof", E);
            addCV(o, E);
            if (S->isArgumentType()) o.num("of", typeIx(S->getArgumentType()));
            else { o.num("of", typeIx(S->getArgumentExpr()->getType())); o.raw("e", expr(S->getArgumentExpr())); }
            return o.end();
        }
        if (auto *IL = dyn_cast<InitListExpr>(E)) {
            if (auto *Sem = IL->getSemanticForm()) IL = Sem;
            Obj o = base("init", IL);
            std::vector<std::string> names;
            if (auto *RD = IL->getType()->getAsCXXRecordDecl()) {
                o.str("rec", recName(RD));
                for (auto &B : RD->bases()) names.push_back(quote("(base)"));
                for (auto *F : RD->fields()) if (!F->isUnnamedBitfield()) names.push_back(quote(F->getNameAsString()));
            }
            o.raw("fields", arr(names));
            o.raw("elems", exprRange(IL->begin(), IL->end()));
            return o.end();
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return base("zero", E).end();
        if (auto *CLx = dyn_cast<CompoundLiteralExpr>(E)) return expr(CLx->getInitializer());
        if (auto *PL = dyn_cast<ParenListExpr>(E)) {
            Obj o = base("plist", E);
            std::vector<std::string> v;
            for (unsigned i = 0; i < PL->getNumExprs(); i++) v.push_back(expr(PL->getExpr(i)));
            o.raw("elems", arr(v));
            return o.end();
        }
        if (auto *PI = dyn_cast<CXXParenListInitExpr>(E)) {
            Obj o = base("init", E);
            std::vector<std::string> names, v;
            if (auto *RD = E->getType()->getAsCXXRecordDecl()) {
                o.str("rec", recName(RD));
                for (auto &B : RD->bases()) names.push_back(quote("(base)"));
                for (auto *F : RD->fields()) names.push_back(quote(F->getNameAsString()));
            }
            for (auto *e : PI->getInitExprs()) v.push_back(expr(e));
            o.raw("fields", arr(names)).raw("elems", arr(v));
            return o.end();
        }
        if (auto *CE = dyn_cast<CallExpr>(E)) {
            Obj o = base("call", E);
            const FunctionDecl *FD = CE->getDirectCallee();
            if (FD) {
                o.str("fn", fnId(FD)).str("q", qname(FD)).str("n", FD->getNameAsString());
                o.flag("noret", FD->isNoReturn());
                note(FD, CE->getExprLoc());
                if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
                    o.str("cls", recName(MD->getParent())).str("cq", qname(MD->getParent()));
                    o.flag("smeth", MD->isStatic());
                    o.flag("cmeth", MD->isConst());
                }
                if (auto *PT = FD->getType()->getAs<FunctionProtoType>())
                    o.flag("nothrow", !isUnresolvedExceptionSpec(PT->getExceptionSpecType()) && PT->isNothrow());
            }
            if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
                if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
                    o.raw("obj", expr(ME->getBase()));
                    o.flag("arrow", ME->isArrow());
                    if (auto *MD = MC->getMethodDecl()) o.flag("virt", MD->isVirtual() && !ME->hasQualifier());
                } else o.raw("ce", expr(MC->getCallee()));
                o.raw("args", exprRange(CE->arg_begin(), CE->arg_end()));
            } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
                o.str("op", getOperatorSpelling(OC->getOperator()));
                auto b = CE->arg_begin();
                if (FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
                    o.raw("obj", expr(*b));
                    ++b;
                }
                o.raw("args", exprRange(b, CE->arg_end()));
            } else {
                if (!FD) o.raw("ce", expr(CE->getCallee()));
                o.raw("args", exprRange(CE->arg_begin(), CE->arg_end()));
            }
            addCV(o, E);
            return o.end();
        }
        if (auto *SE = dyn_cast<StmtExpr>(E)) {
            Obj o = base("stmtexpr", E);
            o.raw("s", stmt(SE->getSubStmt()));
            return o.end();
        }
        if (auto *AI = dyn_cast<ArrayInitLoopExpr>(E)) {
            Obj o = base("arrcopy", E);
            o.raw("e", expr(AI->getCommonExpr()->getSourceExpr()));
            return o.end();
        }
        if (isa<CXXNoexceptExpr>(E) || isa<TypeTraitExpr>(E) || isa<RequiresExpr>(E) || isa<ConceptSpecializationExpr>(E)) {
            Obj o = base("lit", E);
            addCV(o, E);
            return o.end();
        }
        Obj o = base("other", E);
        o.str("cls", E->getStmtClassName());
        std::vector<std::string> v;
        for (auto *ch : E->children()) if (auto *x = dyn_cast_or_null<Expr>(ch)) v.push_back(expr(x));
        o.raw("args", arr(v));
        return o.end();
    }

    // ---- statements ------------------------------------------------------
    std::string varDecl(const VarDecl *V) {
        Obj o;
        o.str("n", V->getNameAsString()).num("id", idOf(V)).num("t", typeIx(V->getType())).num("l", line(V->getLocation()));
        o.flag("static", V->isStaticLocal());
        if (V->hasInit()) {
            o.raw("init", expr(V->getInit()));
        }
        if (auto *D = dyn_cast<DecompositionDecl>(V)) {
            std::vector<std::string> bs;
            int i = 0;
            for (auto *B : D->bindings()) {
                Obj b;
                b.str("n", B->getNameAsString()).num("id", idOf(B)).num("ix", i++).num("t", typeIx(B->getType()));
                if (auto *X = B->getBinding())
                    if (auto *M = dyn_cast<MemberExpr>(X->IgnoreParens())) b.str("fld", M->getMemberDecl()->getNameAsString());
                bs.push_back(b.end());
            }
            o.raw("binds", arr(bs));
        }
        return o.end();
    }

    Obj sbase(const char *k, const Stmt *S) {
        Obj o;
        o.str("k", k).num("l", line(S->getBeginLoc()));
        return o;
    }

    std::string stmts(const CompoundStmt *Cs) {
        std::vector<std::string> v;
        for (auto *s : Cs->body()) v.push_back(stmt(s));
        return arr(v);
    }

    std::string stmt(const Stmt *S) {
        if (!S) return "null";
        if (auto *E = dyn_cast<Expr>(S)) { Obj o = sbase("expr", S); o.raw("e", expr(E)); return o.end(); }
        if (auto *Cs = dyn_cast<CompoundStmt>(S)) { Obj o = sbase("block", S); o.raw("b", stmts(Cs)); o.num("end", line(Cs->getEndLoc())); return o.end(); }
        if (auto *D = dyn_cast<DeclStmt>(S)) {
            Obj o = sbase("decl", S);
            std::vector<std::string> v;
            for (auto *d : D->decls()) {
                if (auto *VD = dyn_cast<VarDecl>(d)) v.push_back(varDecl(VD));
                else if (auto *RD = dyn_cast<CXXRecordDecl>(d)) visit(RD);
            }
            o.raw("vars", arr(v));
            return o.end();
        }
        if (auto *I = dyn_cast<IfStmt>(S)) {
            Obj o = sbase("if", S);
            if (I->getInit()) o.raw("init", stmt(I->getInit()));
            if (I->getConditionVariable()) o.raw("var", varDecl(I->getConditionVariable()));
            if (I->isConsteval()) { o.raw("c", "{\"k\":\"lit\",\"cv\":0}"); }
            else o.raw("c", expr(I->getCond()));
            o.flag("ce", I->isConstexpr());
            o.raw("a", stmt(I->getThen()));
            if (I->getElse()) o.raw("b", stmt(I->getElse()));
            return o.end();
        }
        if (auto *W = dyn_cast<WhileStmt>(S)) {
            Obj o = sbase("while", S);
            if (W->getConditionVariable()) o.raw("var", varDecl(W->getConditionVariable()));
            o.raw("c", expr(W->getCond())).raw("b", stmt(W->getBody()));
            return o.end();
        }
        if (auto *W = dyn_cast<DoStmt>(S)) {
            Obj o = sbase("do", S);
            o.raw("c", expr(W->getCond())).raw("b", stmt(W->getBody()));
            return o.end();
        }
        if (auto *F = dyn_cast<ForStmt>(S)) {
            Obj o = sbase("for", S);
            if (F->getInit()) o.raw("init", stmt(F->getInit()));
            if (F->getCond()) o.raw("c", expr(F->getCond()));
            if (F->getInc()) o.raw("inc", expr(F->getInc()));
            o.raw("b", stmt(F->getBody()));
            return o.end();
        }
        if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
            Obj o = sbase("range", S);
            if (F->getInit()) o.raw("init", stmt(F->getInit()));
            o.raw("var", varDecl(F->getLoopVariable()));
            o.raw("r", expr(F->getRangeInit()));
            o.raw("b", stmt(F->getBody()));
            return o.end();
        }
        if (auto *W = dyn_cast<SwitchStmt>(S)) {
            Obj o = sbase("switch", S);
            if (W->getInit()) o.raw("init", stmt(W->getInit()));
            if (W->getConditionVariable()) o.raw("var", varDecl(W->getConditionVariable()));
            o.raw("c", expr(W->getCond()));
            o.raw("b", stmt(W->getBody()));
            // enumerators of the switched type, if any
            const Expr *ce = W->getCond()->IgnoreParenImpCasts();
            o.num("ct", typeIx(ce->getType()));
            return o.end();
        }
        if (auto *K = dyn_cast<CaseStmt>(S)) {
            Obj o = sbase("case", S);
            o.raw("v", expr(K->getLHS()));
            if (K->getRHS()) o.raw("v2", expr(K->getRHS()));
            o.raw("s", stmt(K->getSubStmt()));
            return o.end();
        }
        if (auto *K = dyn_cast<DefaultStmt>(S)) { Obj o = sbase("default", S); o.raw("s", stmt(K->getSubStmt())); return o.end(); }
        if (isa<BreakStmt>(S)) return sbase("break", S).end();
        if (isa<ContinueStmt>(S)) return sbase("continue", S).end();
        if (auto *R = dyn_cast<ReturnStmt>(S)) { Obj o = sbase("return", S); if (R->getRetValue()) o.raw("e", expr(R->getRetValue())); return o.end(); }
        if (auto *T = dyn_cast<CXXTryStmt>(S)) {
            Obj o = sbase("try", S);
            o.raw("b", stmt(T->getTryBlock()));
            std::vector<std::string> hs;
            for (unsigned i = 0; i < T->getNumHandlers(); i++) {
                auto *H = T->getHandler(i);
                Obj h;
                h.num("l", line(H->getBeginLoc()));
                if (auto *V = H->getExceptionDecl()) h.num("t", typeIx(V->getType())).str("n", V->getNameAsString()).num("id", idOf(V));
                h.raw("b", stmt(H->getHandlerBlock()));
                hs.push_back(h.end());
            }
            o.raw("h", arr(hs));
            return o.end();
        }
        if (auto *L = dyn_cast<LabelStmt>(S)) { Obj o = sbase("label", S); o.str("n", L->getName()).raw("s", stmt(L->getSubStmt())); return o.end(); }
        if (auto *G = dyn_cast<GotoStmt>(S)) { Obj o = sbase("goto", S); o.str("n", G->getLabel()->getName()); return o.end(); }
        if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
        if (isa<NullStmt>(S)) return sbase("null", S).end();
        Obj o = sbase("other", S);
        o.str("cls", S->getStmtClassName());
        return o.end();
    }

    std::string params(const FunctionDecl *F) {
        std::vector<std::string> ps;
        for (auto *P : F->parameters()) {
            Obj p;
            p.str("n", P->getNameAsString()).num("id", idOf(P)).num("t", typeIx(P->getType()));
            if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg() && !F->isDependentContext()) p.raw("def", expr(P->getDefaultArg()));
            ps.push_back(p.end());
        }
        return arr(ps);
    }

    // ---- declarations ----------------------------------------------------
    std::map<std::string, std::string> Uses;

    void used(const FunctionDecl *F, SourceLocation L) {
        if (F->isDependentContext() || F->isPureVirtual() || F->isImplicit() || F->isDefaulted() || F->isDeleted() || F->getBuiltinID()) return;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
        if (!inRoots(F->getCanonicalDecl()->getLocation())) return;
        auto id = fnId(F);
        if (Uses.count(id)) return;
        Obj o;
        o.str("fid", id).num("file", fileIx(L)).num("l", line(L));
        Uses[id] = o.end();
    }

    void usedVar(const VarDecl *V, SourceLocation L) {
        if (V->getDeclContext()->isDependentContext() || V->getDefinition() || V->isInline() || !inRoots(V->getCanonicalDecl()->getLocation())) return;
        if (V->getType().isConstQualified() && V->getAnyInitializer()) return;
        auto id = qname(V);
        if (Uses.count(id)) return;
        Obj o;
        o.str("gq", id).num("file", fileIx(L)).num("l", line(L));
        Uses[id] = o.end();
    }

    void note(const FunctionDecl *F, SourceLocation L) {
        used(F, L);
        // instantiated templates and inline functions referenced from the roots
        if (F->isDependentContext()) return;
        const FunctionDecl *D = nullptr;
        if (F->hasBody(D) && D) Work.push_back(D);
    }

    void function(const FunctionDecl *F) {
        if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return;
        if (!inRoots(F->getLocation())) return;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
        if (!DoneFn.insert(F->getCanonicalDecl()).second) return;
        Obj o;
        o.str("id", fnId(F)).str("q", qname(F)).str("n", F->getNameAsString());
        o.num("file", fileIx(F->getLocation())).num("l", line(F->getLocation())).num("end", line(F->getEndLoc()));
        o.num("rt", typeIx(F->getReturnType()));
        o.raw("params", params(F));
        o.flag("noret", F->isNoReturn());
        o.flag("implicit", F->isImplicit() || F->isDefaulted());
        o.flag("tmpl", F->isTemplateInstantiation());
        o.str("storage", F->getStorageClass() == SC_Static ? "static" : "");
        o.flag("inline", F->isInlined());
        if (auto *PT = F->getType()->getAs<FunctionProtoType>())
            o.flag("nothrow", !isUnresolvedExceptionSpec(PT->getExceptionSpecType()) && PT->isNothrow());
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o.str("cls", recName(M->getParent())).str("cq", qname(M->getParent()));
            o.flag("smeth", M->isStatic()).flag("cmeth", M->isConst()).flag("virt", M->isVirtual());
            o.str("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private");
            std::vector<std::string> ov;
            for (auto *b : M->overridden_methods()) ov.push_back(quote(fnId(b)));
            o.raw("over", arr(ov));
        }
        if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
            o.str("kind", "ctor");
            std::vector<std::string> is;
            for (auto *I : CD->inits()) {
                Obj i;
                if (I->isAnyMemberInitializer()) i.str("fld", I->getAnyMember()->getNameAsString());
                else if (I->isBaseInitializer()) i.str("base", QualType(I->getBaseClass(), 0).getAsString(PP));
                else i.flag("deleg", true);
                i.flag("written", I->isWritten());
                i.num("l", line(I->getSourceLocation()));
                i.raw("e", expr(I->getInit()));
                is.push_back(i.end());
            }
            o.raw("inits", arr(is));
        } else if (isa<CXXDestructorDecl>(F)) o.str("kind", "dtor");
        else o.str("kind", isa<CXXMethodDecl>(F) ? "method" : "fn");
        o.raw("body", stmt(F->getBody()));
        Fns.push_back(o.end());
    }

    void record(const CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
        if (!inRoots(R->getLocation())) return;
        if (!DoneRec.insert(R).second) return;
        Obj o;
        o.str("n", recName(R)).str("q", qname(R)).num("file", fileIx(R->getLocation())).num("l", line(R->getLocation()));
        std::vector<std::string> bs, fs, ms;
        for (auto &B : R->bases()) {
            Obj b;
            b.num("t", typeIx(B.getType()));
            b.str("acc", B.getAccessSpecifier() == AS_public ? "public" : B.getAccessSpecifier() == AS_protected ? "protected" : "private");
            b.flag("virt", B.isVirtual());
            bs.push_back(b.end());
        }
        for (auto *F : R->fields()) {
            Obj f;
            f.str("n", F->getNameAsString()).num("t", typeIx(F->getType())).num("l", line(F->getLocation()));
            f.str("acc", F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private");
            if (F->hasInClassInitializer() && F->getInClassInitializer()) f.raw("init", expr(F->getInClassInitializer()));
            fs.push_back(f.end());
        }
        for (auto *D : R->decls()) {
            if (auto *VD = dyn_cast<VarDecl>(D)) global(VD);
            const FunctionDecl *M = dyn_cast<CXXMethodDecl>(D);
            if (!M) continue;
            Obj m;
            m.str("n", M->getNameAsString()).str("id", fnId(M)).num("l", line(M->getLocation()));
            m.str("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private");
            m.flag("implicit", M->isImplicit()).flag("defaulted", M->isDefaulted()).flag("deleted", M->isDeleted());
            m.flag("pure", M->isPureVirtual());
            m.flag("virt", M->isVirtualAsWritten() || cast<CXXMethodDecl>(M)->isVirtual());
            m.flag("static", cast<CXXMethodDecl>(M)->isStatic());
            m.str("kind", isa<CXXConstructorDecl>(M) ? "ctor" : isa<CXXDestructorDecl>(M) ? "dtor" : "method");
            m.num("rt", typeIx(M->getReturnType()));
            std::vector<std::string> ov;
            for (auto *b : cast<CXXMethodDecl>(M)->overridden_methods()) ov.push_back(quote(fnId(b)));
            m.raw("over", arr(ov));
            ms.push_back(m.end());
        }
        o.flag("agg", R->isAggregate());
        o.flag("trivdtor", R->hasTrivialDestructor());
        o.flag("abstract", R->isAbstract());
        o.flag("usercopy", R->hasUserDeclaredCopyConstructor());
        o.flag("userdtor", R->hasUserDeclaredDestructor());
        o.raw("bases", arr(bs)).raw("fields", arr(fs)).raw("methods", arr(ms));
        Recs.push_back(o.end());
    }

    void global(const VarDecl *V) {
        if (!inRoots(V->getLocation()) || V->getDeclContext()->isDependentContext()) return;
        const VarDecl *Def = V->getDefinition();
        Obj o;
        o.str("q", qname(V)).num("t", typeIx(V->getType())).num("file", fileIx(V->getLocation())).num("l", line(V->getLocation()));
        o.flag("def", Def == V || (V->isThisDeclarationADefinition() == VarDecl::Definition));
        o.flag("member", V->isStaticDataMember());
        if (V->getInit() && !V->getInit()->isValueDependent()) o.raw("init", expr(V->getInit()));
        Globals.push_back(o.end());
    }

    void enumd(const EnumDecl *E) {
        if (!inRoots(E->getLocation()) || !E->isThisDeclarationADefinition() || E->getDeclContext()->isDependentContext()) return;
        Obj o;
        o.str("q", qname(E)).num("file", fileIx(E->getLocation())).num("l", line(E->getLocation()));
        std::vector<std::string> es;
        for (auto *X : E->enumerators()) {
            llvm::SmallString<32> s; X->getInitVal().toString(s, 10);
            es.push_back("[" + quote(X->getNameAsString()) + "," + std::string(s) + "," + std::to_string(line(X->getLocation())) + "]");
        }
        o.raw("vals", arr(es));
        Enums.push_back(o.end());
    }

    void visit(const Decl *D) {
        if (auto *F = dyn_cast<FunctionDecl>(D)) { function(F); return; }
        if (auto *E = dyn_cast<EnumDecl>(D)) { enumd(E); return; }
        if (auto *V = dyn_cast<VarDecl>(D)) { global(V); return; }
        if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) {
            for (auto *S : FT->specializations()) {
                const FunctionDecl *X = nullptr;
                if (S->hasBody(X) && X) function(X);
            }
            return;
        }
        if (auto *CT = dyn_cast<ClassTemplateDecl>(D)) {
            for (auto *S : CT->specializations()) visitRecord(S);
            return;
        }
        if (auto *R = dyn_cast<CXXRecordDecl>(D)) { visitRecord(R); return; }
        if (auto *DC = dyn_cast<DeclContext>(D)) {
            if (isa<NamespaceDecl>(D) || isa<LinkageSpecDecl>(D) || isa<TranslationUnitDecl>(D) || isa<ExportDecl>(D))
                for (auto *X : DC->decls()) visit(X);
        }
    }

    void visitRecord(const CXXRecordDecl *R) {
        if (isa<ClassTemplatePartialSpecializationDecl>(R)) return;
        if (R->isDependentContext()) return;
        auto *Def = R->getDefinition();
        if (!Def) return;
        record(Def);
        for (auto *X : Def->decls()) {
            if (auto *RD = dyn_cast<CXXRecordDecl>(X)) { if (!RD->isInjectedClassName()) visitRecord(RD); }
            else if (!isa<VarDecl>(X)) visit(X);
        }
    }

    void run(llvm::raw_ostream &os) {
        visit(C.getTranslationUnitDecl());
        while (!Work.empty()) {
            auto W = std::move(Work);
            Work.clear();
            for (auto *F : W) function(F);
        }
        os << "{\"types\":" << arr(TypeOut) << ",\n\"files\":" << arr(Files) << ",\n\"functions\":[";
        for (size_t i = 0; i < Fns.size(); i++) os << (i ? ",\n" : "\n") << Fns[i];
        os << "],\n\"records\":" << arr(Recs) << ",\n\"enums\":" << arr(Enums) << ",\n\"globals\":" << arr(Globals) << ",\n\"uses\":[";
        bool first = true;
        for (auto &u : Uses) { os << (first ? "" : ",\n") << u.second; first = false; }
        os << "]}\n";
    }
};

class Consumer : public ASTConsumer {
    CompilerInstance &CI;
    std::string Out;
public:
    Consumer(CompilerInstance &ci, std::string out) : CI(ci), Out(std::move(out)) {}
    void HandleTranslationUnit(ASTContext &Ctx) override {
        if (CI.getDiagnostics().hasErrorOccurred()) return;
        std::error_code ec;
        llvm::raw_fd_ostream os(Out, ec);
        Dumper d(Ctx);
        d.run(os);
    }
};

class Action : public ASTFrontendAction {
    std::string Out;
public:
    explicit Action(std::string o) : Out(std::move(o)) {}
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
        return std::make_unique<Consumer>(CI, Out);
    }
};

// usage: hzx OUT.json ROOT[:ROOT...] FILE -- clang args
int main(int argc, char **argv) {
    if (argc < 4) return 2;
    std::string out = argv[1], roots = argv[2], file = argv[3];
    size_t p = 0;
    while (p <= roots.size()) {
        size_t q = roots.find(':', p);
        if (q == std::string::npos) q = roots.size();
        Roots.push_back(roots.substr(p, q - p));
        p = q + 1;
    }
    std::vector<std::string> args = {"clang-tool", "-fsyntax-only"};
    for (int i = 5; i < argc; i++) args.push_back(argv[i]);
    args.push_back(file);
    llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(args, std::make_unique<Action>(out), FM.get());
    return inv.run() ? 0 : 1;
}
