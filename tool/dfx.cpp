// dfx: exports the type-checked program (resolved callees, instantiated
// templates, constant-folded sub-expressions) of one translation unit as JSON.
// It only reads the AST clang builds; nothing of the analysed code is run.
//
// usage: dfx OUT.json ROOT[:ROOT...] FILE.cxx -- clang-args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>

using namespace clang;
namespace js = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace {

class Exporter {
  public:
    Exporter(ASTContext &C)
        : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), NG(C) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressUnwrittenScope = true;
        PP.AnonymousTagLocations = true;
    }

    ASTContext &Ctx;
    SourceManager &SM;
    PrintingPolicy PP;
    ASTNameGenerator NG;
    std::map<const Decl *, int64_t> DeclIds;
    std::map<int64_t, js::Object> Decls;
    std::map<std::string, int64_t> TypeIds;
    std::vector<js::Value> Types;
    std::deque<const FunctionDecl *> Work;
    std::set<const FunctionDecl *> Seen;
    js::Array Funcs;
    std::map<std::string, bool> RootCache;

    std::string fileOf(SourceLocation L) {
        if (L.isInvalid())
            return "";
        SourceLocation E = SM.getExpansionLoc(L);
        if (auto F = SM.getFileEntryRefForID(SM.getFileID(E))) {
            llvm::StringRef P = F->getFileEntry().tryGetRealPathName();
            if (!P.empty())
                return P.str();
            return F->getName().str();
        }
        return "";
    }
    unsigned lineOf(SourceLocation L) {
        if (L.isInvalid())
            return 0;
        return SM.getExpansionLineNumber(L);
    }
    bool inRoots(SourceLocation L) {
        std::string F = fileOf(L);
        auto it = RootCache.find(F);
        if (it != RootCache.end())
            return it->second;
        bool r = false;
        for (auto &R : Roots)
            if (F.rfind(R, 0) == 0)
                r = true;
        RootCache[F] = r;
        return r;
    }

    int64_t typeId(QualType T) {
        if (T.isNull())
            return -1;
        QualType C = T.getCanonicalType();
        std::string S = C.getAsString(PP);
        auto it = TypeIds.find(S);
        if (it != TypeIds.end())
            return it->second;
        int64_t id = Types.size();
        TypeIds[S] = id;
        Types.push_back(nullptr);
        js::Object O;
        O["s"] = S;
        QualType B = C;
        if (C->isLValueReferenceType())
            O["ref"] = "l";
        else if (C->isRValueReferenceType())
            O["ref"] = "r";
        B = C.getNonReferenceType();
        if (B.isConstQualified())
            O["const"] = true;
        QualType U = B.getUnqualifiedType();
        std::string K = "other";
        if (U->isBooleanType())
            K = "bool";
        else if (U->isUnsignedIntegerOrEnumerationType())
            K = "uint";
        else if (U->isSignedIntegerOrEnumerationType())
            K = "int";
        else if (U->isRealFloatingType())
            K = "float";
        else if (U->isPointerType())
            K = "ptr";
        else if (U->isVoidType())
            K = "void";
        else if (U->isArrayType())
            K = "carray";
        else if (U->isFunctionType())
            K = "fn";
        else if (auto *R = U->getAsCXXRecordDecl()) {
            K = "record";
            O["rec"] = R->getQualifiedNameAsString();
            if (R->isLambda())
                O["lambda"] = true;
            O["recid"] = declId(R);
            if (auto *CTS = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
                js::Array TA;
                for (auto &A : CTS->getTemplateArgs().asArray())
                    addTArg(TA, A);
                O["targs"] = std::move(TA);
            }
        }
        O["k"] = K;
        O["u"] = U.getAsString(PP);
        if (K == "ptr")
            O["pointee"] = typeId(U->getPointeeType());
        if (K == "carray")
            if (auto *AT = Ctx.getAsConstantArrayType(U)) {
                O["elem"] = typeId(AT->getElementType());
                O["n"] = (int64_t)AT->getSize().getZExtValue();
            }
        if ((K == "int" || K == "uint" || K == "float" || K == "bool") &&
            !U->isDependentType())
            O["bits"] = (int64_t)Ctx.getTypeSize(U);
        Types[id] = std::move(O);
        return id;
    }
    void addTArg(js::Array &TA, const TemplateArgument &A) {
        switch (A.getKind()) {
        case TemplateArgument::Type:
            TA.push_back(typeId(A.getAsType()));
            break;
        case TemplateArgument::Integral:
            TA.push_back(js::Object{
                {"int", (int64_t)A.getAsIntegral().getExtValue()}});
            break;
        case TemplateArgument::Pack:
            for (auto &P : A.pack_elements())
                addTArg(TA, P);
            break;
        default:
            TA.push_back(nullptr);
        }
    }

    std::string declKind(const Decl *D) {
        if (isa<ParmVarDecl>(D))
            return "param";
        if (auto *V = dyn_cast<VarDecl>(D)) {
            if (V->isStaticLocal())
                return "staticlocal";
            if (V->hasLocalStorage())
                return "local";
            return "global";
        }
        if (isa<FieldDecl>(D))
            return "field";
        if (isa<BindingDecl>(D))
            return "binding";
        if (isa<FunctionDecl>(D))
            return "fn";
        if (isa<EnumConstantDecl>(D))
            return "enumconst";
        if (isa<RecordDecl>(D))
            return "record";
        return D->getDeclKindName();
    }

    static const Decl *canon(const Decl *D) {
        if (auto *P = dyn_cast<ParmVarDecl>(D))
            return P;
        if (isa<FunctionDecl>(D) || isa<RecordDecl>(D) || isa<VarDecl>(D))
            return D->getCanonicalDecl();
        return D;
    }

    int64_t declId(const Decl *D0) {
        const Decl *D = canon(D0);
        auto it = DeclIds.find(D);
        if (it != DeclIds.end())
            return it->second;
        int64_t id = DeclIds.size() + 1;
        DeclIds[D] = id;
        js::Object O;
        O["kind"] = declKind(D);
        if (auto *N = dyn_cast<NamedDecl>(D)) {
            O["name"] = N->getNameAsString();
            O["qname"] = N->getQualifiedNameAsString();
        }
        O["file"] = fileOf(D->getLocation());
        O["line"] = (int64_t)lineOf(D->getLocation());
        if (auto *V = dyn_cast<ValueDecl>(D))
            if (!isa<FunctionDecl>(D))
                O["t"] = typeId(V->getType());
        if (auto *V = dyn_cast<VarDecl>(D)) {
            if (V->isConstexpr())
                O["constexpr"] = true;
            if (V->getTLSKind() != VarDecl::TLS_None)
                O["tls"] = true;
            if (V->getType().getNonReferenceType().isConstQualified())
                O["isconst"] = true;
        }
        if (auto *F = dyn_cast<FieldDecl>(D)) {
            O["mutable"] = F->isMutable();
            O["owner"] = F->getParent()->getQualifiedNameAsString();
        }
        if (auto *F = dyn_cast<FunctionDecl>(D)) {
            fillFn(O, F);
            const FunctionDecl *Def = nullptr;
            if (F->isDefined(Def) && Def && inRoots(Def->getLocation())) {
                O["hasbody"] = true;
                enqueue(Def);
            }
        }
        Decls[id] = std::move(O);
        if (auto *R = dyn_cast<CXXRecordDecl>(D))
            fillRec(id, R);
        return id;
    }

    void fillFn(js::Object &O, const FunctionDecl *F) {
        js::Array Ps;
        for (auto *P : F->parameters())
            Ps.push_back(typeId(P->getType()));
        O["ptypes"] = std::move(Ps);
        O["ret"] = typeId(F->getReturnType());
        O["sys"] = !inRoots(F->getLocation());
        auto ES = F->getExceptionSpecType();
        O["noexcept"] = ES == EST_BasicNoexcept || ES == EST_NoexceptTrue || ES == EST_DynamicNone ||
                        ES == EST_NoThrow ||
                        (isa<CXXDestructorDecl>(F) && (ES == EST_Unevaluated || ES == EST_Unparsed));
        if (F->isInlined())
            O["inline"] = true;
        if (F->isTemplateInstantiation())
            O["tmpl"] = true;
        if (auto *TA = F->getTemplateSpecializationArgs()) {
            js::Array A;
            for (auto &X : TA->asArray())
                addTArg(A, X);
            O["targs"] = std::move(A);
        }
        if (F->getStorageClass() == SC_Static)
            O["static"] = true;
        O["linkage"] = F->getFormalLinkage() == Linkage::External ? "ext" : "int";
        if (!F->isDependentContext())
            O["mangled"] = mangled(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["method"] = true;
            O["cls"] = M->getParent()->getQualifiedNameAsString();
            O["clsid"] = declId(M->getParent());
            O["constm"] = M->isConst();
            O["virtual"] = M->isVirtual();
            O["staticm"] = M->isStatic();
            if (M->getParent()->isLambda())
                O["lambdaop"] = true;
            if (M->isDefaulted())
                O["defaulted"] = true;
            if (M->isDeleted())
                O["deleted"] = true;
            if (M->isCopyAssignmentOperator())
                O["special"] = "copyassign";
            if (M->isMoveAssignmentOperator())
                O["special"] = "moveassign";
            if (auto *Ct = dyn_cast<CXXConstructorDecl>(M)) {
                O["ctor"] = true;
                O["explicit"] = Ct->isExplicit();
                if (Ct->isCopyConstructor())
                    O["special"] = "copyctor";
                else if (Ct->isMoveConstructor())
                    O["special"] = "movector";
                else if (Ct->isDefaultConstructor())
                    O["special"] = "defaultctor";
            }
            if (isa<CXXDestructorDecl>(M))
                O["dtor"] = true;
            if (isa<CXXConversionDecl>(M))
                O["conv"] = true;
            js::Array Ov;
            for (auto *X : M->overridden_methods())
                Ov.push_back(declId(X));
            if (!Ov.empty())
                O["overrides"] = std::move(Ov);
        }
    }
    std::string mangled(const FunctionDecl *F) {
        if (isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F)) {
            auto V = NG.getAllManglings(F);
            if (!V.empty())
                return V.back();
        }
        return NG.getName(F);
    }
    void fillRec(int64_t id, const CXXRecordDecl *R0) {
        const CXXRecordDecl *R = R0->getDefinition();
        if (!R)
            return;
        js::Object &O = Decls[id];
        O["lambda"] = R->isLambda();
        bool repo = inRoots(R->getLocation());
        O["repo"] = repo;
        if (!repo || R->isDependentContext())
            return;
        O["polymorphic"] = R->isPolymorphic();
        O["abstract"] = R->isAbstract();
        if (auto *Dt = R->getDestructor())
            O["virtualdtor"] = Dt->isVirtual();
        else
            O["virtualdtor"] = false;
        O["userdtor"] = R->hasUserDeclaredDestructor();
        O["copyctor_deleted"] = R->defaultedCopyConstructorIsDeleted();
        js::Array Fs, Bs, Ms;
        for (auto *F : R->fields())
            Fs.push_back(js::Object{{"name", F->getNameAsString()},
                                    {"id", declId(F)},
                                    {"t", typeId(F->getType())},
                                    {"mutable", F->isMutable()},
                                    {"access", (int64_t)F->getAccess()},
                                    {"init", F->hasInClassInitializer()
                                                 ? expr(F->getInClassInitializer())
                                                 : js::Value(nullptr)}});
        for (auto &B : R->bases())
            Bs.push_back(typeId(B.getType()));
        for (auto *D : R->decls())
            if (auto *M = dyn_cast<CXXMethodDecl>(D))
                Ms.push_back(declId(M));
        js::Object &O2 = Decls[id];
        O2["fields"] = std::move(Fs);
        O2["bases"] = std::move(Bs);
        O2["methods"] = std::move(Ms);
    }

    void enqueue(const FunctionDecl *Def) {
        if (Def->isDependentContext())
            return;
        if (Seen.insert(Def).second)
            Work.push_back(Def);
    }

    void drain() {
        while (!Work.empty()) {
            const FunctionDecl *F = Work.front();
            Work.pop_front();
            exportFn(F);
        }
    }

    void exportFn(const FunctionDecl *F) {
        if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted())
            return;
        js::Object O;
        O["id"] = declId(F);
        O["name"] = F->getQualifiedNameAsString();
        O["file"] = fileOf(F->getLocation());
        O["line"] = (int64_t)lineOf(F->getLocation());
        O["endline"] = (int64_t)lineOf(F->getEndLoc());
        js::Array Ps;
        for (auto *P : F->parameters()) {
            js::Object PO{{"id", declId(P)},
                          {"name", P->getNameAsString()},
                          {"t", typeId(P->getType())}};
            if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg() &&
                !P->hasUninstantiatedDefaultArg() && P->getDefaultArg())
                PO["default"] = expr(P->getDefaultArg());
            Ps.push_back(std::move(PO));
        }
        O["params"] = std::move(Ps);
        if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) {
            js::Array In;
            for (auto *I : Ct->inits()) {
                js::Object IO;
                if (I->isAnyMemberInitializer()) {
                    IO["field"] = I->getAnyMember()->getNameAsString();
                    IO["fid"] = declId(I->getAnyMember());
                    IO["ft"] = typeId(I->getAnyMember()->getType());
                } else if (I->isDelegatingInitializer())
                    IO["delegating"] = true;
                else if (I->isBaseInitializer())
                    IO["base"] = typeId(QualType(I->getBaseClass(), 0));
                IO["written"] = I->isWritten();
                IO["e"] = expr(I->getInit());
                In.push_back(std::move(IO));
            }
            O["inits"] = std::move(In);
        }
        if (F->getBody())
            O["body"] = stmt(F->getBody());
        Funcs.push_back(std::move(O));
    }

    js::Object node(const char *K, SourceLocation L) {
        js::Object O;
        O["k"] = K;
        O["l"] = (int64_t)lineOf(L);
        return O;
    }
    js::Value nullv() { return nullptr; }

    js::Value varDecl(const VarDecl *V) {
        js::Object O = node("var", V->getLocation());
        O["d"] = declId(V);
        O["t"] = typeId(V->getType());
        O["name"] = V->getNameAsString();
        if (V->isStaticLocal())
            O["static"] = true;
        if (V->hasInit())
            O["init"] = expr(V->getInit());
        if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            js::Array B;
            for (auto *BD : DD->bindings()) {
                js::Object BO;
                BO["d"] = declId(BD);
                BO["name"] = BD->getNameAsString();
                if (auto *H = BD->getHoldingVar()) {
                    BO["hold"] = declId(H);
                    if (H->getInit())
                        BO["init"] = expr(H->getInit());
                } else if (BD->getBinding())
                    BO["init"] = expr(BD->getBinding());
                B.push_back(std::move(BO));
            }
            O["bindings"] = std::move(B);
        }
        return O;
    }

    js::Value stmt(const Stmt *S) {
        if (!S)
            return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) {
            js::Object O = node("expr", E->getBeginLoc());
            O["e"] = expr(E);
            return O;
        }
        SourceLocation L = S->getBeginLoc();
        if (auto *C = dyn_cast<CompoundStmt>(S)) {
            js::Object O = node("block", L);
            js::Array A;
            for (auto *X : C->body())
                A.push_back(stmt(X));
            O["c"] = std::move(A);
            return O;
        }
        if (auto *D = dyn_cast<DeclStmt>(S)) {
            js::Object O = node("decl", L);
            js::Array A;
            for (auto *X : D->decls()) {
                if (auto *V = dyn_cast<VarDecl>(X))
                    A.push_back(varDecl(V));
            }
            O["c"] = std::move(A);
            return O;
        }
        if (auto *I = dyn_cast<IfStmt>(S)) {
            if (I->isConstexpr()) {
                if (auto ND = I->getNondiscardedCase(Ctx)) {
                    js::Object O = node("block", L);
                    js::Array A;
                    if (I->getInit())
                        A.push_back(stmt(I->getInit()));
                    if (*ND)
                        A.push_back(stmt(*ND));
                    O["c"] = std::move(A);
                    return O;
                }
            }
            js::Object O = node("if", L);
            O["init"] = stmt(I->getInit());
            if (I->getConditionVariable())
                O["var"] = varDecl(I->getConditionVariable());
            O["cond"] = expr(I->getCond());
            O["then"] = stmt(I->getThen());
            O["else"] = stmt(I->getElse());
            return O;
        }
        if (auto *F = dyn_cast<ForStmt>(S)) {
            js::Object O = node("for", L);
            O["init"] = stmt(F->getInit());
            O["cond"] = F->getCond() ? expr(F->getCond()) : nullv();
            O["inc"] = F->getInc() ? expr(F->getInc()) : nullv();
            O["body"] = stmt(F->getBody());
            return O;
        }
        if (auto *W = dyn_cast<WhileStmt>(S)) {
            js::Object O = node("while", L);
            O["cond"] = expr(W->getCond());
            O["body"] = stmt(W->getBody());
            return O;
        }
        if (auto *W = dyn_cast<DoStmt>(S)) {
            js::Object O = node("do", L);
            O["cond"] = expr(W->getCond());
            O["body"] = stmt(W->getBody());
            return O;
        }
        if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
            js::Object O = node("range", L);
            O["init"] = stmt(R->getInit());
            O["range"] = expr(R->getRangeInit());
            if (auto *LV = R->getLoopVariable())
                O["var"] = varDecl(LV);
            O["body"] = stmt(R->getBody());
            return O;
        }
        if (auto *R = dyn_cast<ReturnStmt>(S)) {
            js::Object O = node("return", L);
            O["e"] = R->getRetValue() ? expr(R->getRetValue()) : nullv();
            return O;
        }
        if (isa<BreakStmt>(S))
            return node("break", L);
        if (isa<ContinueStmt>(S))
            return node("continue", L);
        if (isa<NullStmt>(S))
            return node("null", L);
        if (auto *T = dyn_cast<CXXTryStmt>(S)) {
            js::Object O = node("try", L);
            O["body"] = stmt(T->getTryBlock());
            js::Array H;
            for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
                auto *C = T->getHandler(i);
                js::Object HO;
                HO["l"] = (int64_t)lineOf(C->getBeginLoc());
                HO["t"] = C->getCaughtType().isNull()
                              ? -1
                              : typeId(C->getCaughtType());
                if (C->getExceptionDecl())
                    HO["d"] = declId(C->getExceptionDecl());
                HO["body"] = stmt(C->getHandlerBlock());
                H.push_back(std::move(HO));
            }
            O["handlers"] = std::move(H);
            return O;
        }
        if (auto *W = dyn_cast<SwitchStmt>(S)) {
            js::Object O = node("switch", L);
            O["cond"] = expr(W->getCond());
            O["body"] = stmt(W->getBody());
            return O;
        }
        if (auto *C = dyn_cast<CaseStmt>(S)) {
            js::Object O = node("case", L);
            O["v"] = expr(C->getLHS());
            O["body"] = stmt(C->getSubStmt());
            return O;
        }
        if (auto *C = dyn_cast<DefaultStmt>(S)) {
            js::Object O = node("default", L);
            O["body"] = stmt(C->getSubStmt());
            return O;
        }
        if (auto *A = dyn_cast<AttributedStmt>(S))
            return stmt(A->getSubStmt());
        js::Object O = node("other", L);
        O["cls"] = S->getStmtClassName();
        return O;
    }

    js::Array exprs(llvm::ArrayRef<const Expr *> A) {
        js::Array R;
        for (auto *E : A)
            R.push_back(expr(E));
        return R;
    }
    template <typename R> js::Array exprRange(R &&range) {
        js::Array A;
        for (const Expr *E : range)
            A.push_back(expr(E));
        return A;
    }

    js::Value expr(const Expr *E) {
        if (!E)
            return nullptr;
        // transparent nodes
        if (auto *X = dyn_cast<ParenExpr>(E))
            return expr(X->getSubExpr());
        if (auto *X = dyn_cast<ConstantExpr>(E))
            return expr(X->getSubExpr());
        if (auto *X = dyn_cast<ExprWithCleanups>(E))
            return expr(X->getSubExpr());
        if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
            return expr(X->getSubExpr());
        if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
            js::Value V = expr(X->getSubExpr());
            if (auto *O = V.getAsObject())
                (*O)["tmp"] = true;
            return V;
        }
        if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
            return expr(X->getReplacement());
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
            js::Value V = expr(X->getExpr());
            if (auto *O = V.getAsObject())
                (*O)["defarg"] = true;
            return V;
        }
        if (auto *X = dyn_cast<CXXDefaultInitExpr>(E))
            return expr(X->getExpr());
        if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E))
            return expr(X->getSemanticForm());
        if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
            js::Object O = node("initlist_std", E->getBeginLoc());
            O["t"] = typeId(E->getType());
            O["c"] = js::Array{expr(X->getSubExpr())};
            return O;
        }
        if (auto *X = dyn_cast<GenericSelectionExpr>(E))
            return expr(X->getResultExpr());

        SourceLocation L = E->getExprLoc();
        if (L.isInvalid())
            L = E->getBeginLoc();

        // constants
        if (!E->isValueDependent() && !E->isTypeDependent() &&
            (E->getType()->isIntegralOrEnumerationType()) && E->isPRValue()) {
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
                js::Object O = node("int", L);
                O["t"] = typeId(E->getType());
                llvm::APSInt V = R.Val.getInt();
                if (V.getSignificantBits() <= 63)
                    O["v"] = (int64_t)V.getExtValue();
                else
                    O["vs"] = llvm::toString(V, 10);
                return O;
            }
        }
        if (!E->isValueDependent() && !E->isTypeDependent() &&
            E->getType()->isRealFloatingType() && E->isPRValue()) {
            Expr::EvalResult R;
            if (E->EvaluateAsRValue(R, Ctx) && R.Val.isFloat() &&
                !R.HasSideEffects) {
                js::Object O = node("float", L);
                O["t"] = typeId(E->getType());
                llvm::SmallString<32> S;
                R.Val.getFloat().toString(S, 17, 0, false);
                O["v"] = S.str().str();
                return O;
            }
        }

        if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
            switch (X->getCastKind()) {
            case CK_LValueToRValue:
            case CK_NoOp:
            case CK_FunctionToPointerDecay:
            case CK_BuiltinFnToFnPtr:
            case CK_UncheckedDerivedToBase:
            case CK_DerivedToBase:
                return expr(X->getSubExpr());
            case CK_ConstructorConversion:
            case CK_UserDefinedConversion: {
                js::Value V = expr(X->getSubExpr());
                if (auto *O = V.getAsObject())
                    (*O)["implconv"] = true;
                return V;
            }
            default:
                break;
            }
        }
        if (auto *X = dyn_cast<CastExpr>(E)) {
            if (X->getCastKind() == CK_NoOp &&
                !isa<CXXConstCastExpr>(X) && !isa<CXXReinterpretCastExpr>(X)) {
                if (!isa<ImplicitCastExpr>(X) &&
                    E->getType().getCanonicalType() ==
                        X->getSubExpr()->getType().getCanonicalType())
                    return expr(X->getSubExpr());
            }
            if (X->getCastKind() == CK_ConstructorConversion ||
                X->getCastKind() == CK_UserDefinedConversion)
                return expr(X->getSubExpr());
            js::Object O = node("cast", L);
            O["ck"] = X->getCastKindName();
            O["t"] = typeId(E->getType());
            O["implicit"] = isa<ImplicitCastExpr>(X);
            O["cls"] = X->getStmtClassName();
            if (E->isGLValue())
                O["lv"] = E->isXValue() ? "x" : "l";
            O["c"] = js::Array{expr(X->getSubExpr())};
            return O;
        }

        js::Object O = node("?", L);
        O["t"] = typeId(E->getType());
        if (E->isGLValue())
            O["lv"] = E->isXValue() ? "x" : "l";

        if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            O["k"] = "ref";
            O["d"] = declId(X->getDecl());
            return O;
        }
        if (auto *X = dyn_cast<MemberExpr>(E)) {
            O["k"] = "member";
            O["d"] = declId(X->getMemberDecl());
            O["name"] = X->getMemberDecl()->getNameAsString();
            O["arrow"] = X->isArrow();
            O["c"] = js::Array{expr(X->getBase())};
            return O;
        }
        if (isa<CXXThisExpr>(E)) {
            O["k"] = "this";
            return O;
        }
        if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            O["k"] = "call";
            O["op"] = getOperatorSpelling(X->getOperator());
            if (auto *F = X->getDirectCallee())
                O["fn"] = declId(F);
            else
                O["callee"] = expr(X->getCallee());
            O["c"] = exprRange(X->arguments());
            if (auto *F = X->getDirectCallee())
                if (auto *M = dyn_cast<CXXMethodDecl>(F))
                    if (!M->isStatic())
                        O["selfarg"] = true;
            return O;
        }
        if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            O["k"] = "call";
            if (auto *M = X->getMethodDecl()) {
                O["fn"] = declId(M);
                O["selfarg"] = true;
                js::Array A;
                A.push_back(expr(X->getImplicitObjectArgument()));
                for (auto *Y : X->arguments())
                    A.push_back(expr(Y));
                O["c"] = std::move(A);
                if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
                    O["arrow"] = ME->isArrow();
                return O;
            }
        }
        if (auto *X = dyn_cast<CallExpr>(E)) {
            O["k"] = "call";
            if (auto *F = X->getDirectCallee())
                O["fn"] = declId(F);
            else
                O["callee"] = expr(X->getCallee());
            O["c"] = exprRange(X->arguments());
            return O;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            O["k"] = "construct";
            O["fn"] = declId(X->getConstructor());
            O["list"] = X->isListInitialization();
            O["elid"] = X->isElidable();
            O["c"] = exprRange(X->arguments());
            return O;
        }
        if (auto *X = dyn_cast<UnaryOperator>(E)) {
            O["k"] = "un";
            O["op"] = (X->isPostfix() ? "post" : "") +
                      UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            O["c"] = js::Array{expr(X->getSubExpr())};
            return O;
        }
        if (auto *X = dyn_cast<BinaryOperator>(E)) {
            O["k"] = "bin";
            O["op"] = X->getOpcodeStr().str();
            O["c"] = js::Array{expr(X->getLHS()), expr(X->getRHS())};
            return O;
        }
        if (auto *X = dyn_cast<ConditionalOperator>(E)) {
            O["k"] = "cond";
            O["c"] = js::Array{expr(X->getCond()), expr(X->getTrueExpr()),
                               expr(X->getFalseExpr())};
            return O;
        }
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
            O["k"] = "index";
            O["c"] = js::Array{expr(X->getBase()), expr(X->getIdx())};
            return O;
        }
        if (auto *X = dyn_cast<StringLiteral>(E)) {
            O["k"] = "str";
            if (X->getCharByteWidth() == 1)
                O["v"] = llvm::json::fixUTF8(X->getString());
            return O;
        }
        if (auto *X = dyn_cast<InitListExpr>(E)) {
            O["k"] = "initlist";
            const InitListExpr *Sm = X->isSemanticForm() ? X
                                     : X->getSemanticForm() ? X->getSemanticForm()
                                                            : X;
            js::Array A;
            for (auto *Y : Sm->inits())
                A.push_back(expr(Y));
            O["c"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<LambdaExpr>(E)) {
            O["k"] = "lambda";
            O["rec"] = declId(X->getLambdaClass());
            js::Array Cs;
            auto ii = X->capture_init_begin();
            for (auto &C : X->captures()) {
                js::Object CO;
                CO["this"] = C.capturesThis();
                if (C.capturesVariable()) {
                    CO["d"] = declId(C.getCapturedVar());
                    CO["initcap"] =
                        isa<VarDecl>(C.getCapturedVar()) &&
                        cast<VarDecl>(C.getCapturedVar())->isInitCapture();
                    if (CO["initcap"] == js::Value(true))
                        CO["init"] = expr(
                            cast<VarDecl>(C.getCapturedVar())->getInit());
                }
                CO["byref"] = C.getCaptureKind() == LCK_ByRef;
                CO["thiscopy"] = C.getCaptureKind() == LCK_StarThis;
                ++ii;
                Cs.push_back(std::move(CO));
            }
            O["caps"] = std::move(Cs);
            O["mutable"] = X->isMutable();
            O["generic"] = X->isGenericLambda();
            if (!X->isGenericLambda()) {
                O["fn"] = declId(X->getCallOperator());
                enqueue(X->getCallOperator());
            }
            return O;
        }
        if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            O["k"] = "new";
            O["array"] = X->isArray();
            O["at"] = typeId(X->getAllocatedType());
            if (X->isArray() && X->getArraySize() && *X->getArraySize())
                O["size"] = expr(*X->getArraySize());
            if (X->getInitializer())
                O["c"] = js::Array{expr(X->getInitializer())};
            return O;
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
            O["k"] = "delete";
            O["array"] = X->isArrayForm();
            O["dt"] = typeId(X->getDestroyedType());
            O["c"] = js::Array{expr(X->getArgument())};
            return O;
        }
        if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
            O["k"] = "throw";
            O["tt"] = X->getSubExpr() ? typeId(X->getSubExpr()->getType()) : -1;
            O["c"] = X->getSubExpr() ? js::Array{expr(X->getSubExpr())}
                                     : js::Array{};
            return O;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            O["k"] = "nullptr";
            return O;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            O["k"] = "zeroinit";
            return O;
        }
        if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
            O["k"] = "arrayinitloop";
            (void)X;
            return O;
        }
        O["k"] = "otherexpr";
        O["cls"] = E->getStmtClassName();
        js::Array A;
        for (auto *C : E->children())
            if (auto *CE = dyn_cast_or_null<Expr>(C))
                A.push_back(expr(CE));
        O["c"] = std::move(A);
        return O;
    }

    js::Array Globals;
    js::Array Templates; // function/class templates declared in the roots
};

class Finder : public RecursiveASTVisitor<Finder> {
  public:
    Exporter &X;
    explicit Finder(Exporter &E) : X(E) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!X.inRoots(F->getLocation()) || F->isDependentContext())
            return true;
        X.declId(F);
        if (F->isThisDeclarationADefinition())
            X.enqueue(F);
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (!X.inRoots(V->getLocation()) || V->isTemplated() ||
            V->getDeclContext()->isDependentContext())
            return true;
        if (V->hasGlobalStorage() && !isa<ParmVarDecl>(V)) {
            js::Object O;
            O["d"] = X.declId(V);
            if (V->hasInit() && !V->getInit()->isValueDependent())
                O["init"] = X.expr(V->getInit());
            O["file"] = X.fileOf(V->getLocation());
            O["line"] = (int64_t)X.lineOf(V->getLocation());
            X.Globals.push_back(std::move(O));
        }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (X.inRoots(R->getLocation()) && !R->isDependentContext() &&
            R->isThisDeclarationADefinition())
            X.declId(R);
        return true;
    }
    bool VisitFunctionTemplateDecl(FunctionTemplateDecl *T) {
        if (!X.inRoots(T->getLocation()))
            return true;
        js::Object O;
        O["qname"] = T->getQualifiedNameAsString();
        O["file"] = X.fileOf(T->getLocation());
        O["line"] = (int64_t)X.lineOf(T->getLocation());
        int64_t n = 0;
        for (auto *S : T->specializations())
            if (S->getTemplateSpecializationKind() != TSK_Undeclared)
                ++n;
        O["insts"] = n;
        const FunctionDecl *TD = T->getTemplatedDecl();
        O["defined"] = TD->isDefined() || TD->isDeleted();
        X.Templates.push_back(std::move(O));
        return true;
    }
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &Ctx) override {
        Exporter X(Ctx);
        Finder F(X);
        F.TraverseDecl(Ctx.getTranslationUnitDecl());
        X.drain();
        js::Object Root;
        js::Object Ds;
        Root["funcs"] = std::move(X.Funcs);
        for (auto &P : X.Decls)
            Ds[std::to_string(P.first)] = std::move(P.second);
        Root["decls"] = std::move(Ds);
        Root["types"] = js::Array(std::move(X.Types));
        Root["globals"] = std::move(X.Globals);
        Root["templates"] = std::move(X.Templates);
        std::error_code EC;
        llvm::raw_fd_ostream OS(OutPath, EC);
        OS << js::Value(std::move(Root)) << "\n";
    }
};

class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI,
                                                   llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};

} // namespace

int main(int argc, const char **argv) {
    if (argc < 4) {
        llvm::errs() << "usage: dfx OUT ROOT[:ROOT] FILE -- args\n";
        return 2;
    }
    OutPath = argv[1];
    {
        std::string R = argv[2], cur;
        for (char c : R + ":")
            if (c == ':') {
                if (!cur.empty())
                    Roots.push_back(cur);
                cur.clear();
            } else
                cur += c;
    }
    std::string File = argv[3];
    std::vector<std::string> Args;
    for (int i = 4; i < argc; ++i)
        if (std::string(argv[i]) != "--")
            Args.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", Args);
    tooling::ClangTool Tool(DB, {File});
    int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
    return rc;
}
