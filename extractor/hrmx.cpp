// hrmx: dumps the type-resolved program (functions, classes, globals) declared
// under a given root directory as JSON.  Everything the Python analyser knows
// about the code under analysis comes from here.
//
// usage: hrmx --root=/repo -o out.json source.cpp -- <compiler flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string OutFile;

static llvm::json::Value intValue(const llvm::APSInt &V) {
    if (V.isRepresentableByInt64()) return (int64_t)V.getExtValue();
    if (V.isUnsigned() && V.getActiveBits() <= 64) return (uint64_t)V.getZExtValue();
    return nullptr;
}

namespace {

class Dumper {
  public:
    explicit Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }

    ASTContext &Ctx;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<const Type *, int> TypeIdxC, TypeIdx;
    std::map<std::pair<const void *, unsigned>, int> TIdx;
    Array Types;
    std::map<const FunctionDecl *, int> FnIdx;
    Array Fns;
    std::map<const void *, int> VarIdx;
    std::map<const void *, std::string> LocalIds;
    Array Functions, Classes, Globals, Notes;
    std::set<std::string> SeenClass, SeenGlobal;

    bool inRoot(SourceLocation L, std::string *File = nullptr) {
        if (L.isInvalid()) return false;
        L = SM.getExpansionLoc(L);
        StringRef F = SM.getFilename(L);
        llvm::SmallString<256> P(F);
        if (const FileEntry *FE = SM.getFileEntryForID(SM.getFileID(L))) {
            StringRef R = FE->tryGetRealPathName();
            if (!R.empty()) P = R;
        }
        if (File) *File = std::string(P.str());
        for (const std::string &R : Roots)
            if (StringRef(P).starts_with(R)) return true;
        return false;
    }
    int line(SourceLocation L) { return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0; }

    std::string qname(const NamedDecl *D) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        // qualified name without template arguments of the entity itself
        D->printQualifiedName(OS, PP);
        return OS.str();
    }
    // Qualified record name without any template arguments.
    std::string recName(const DeclContext *DC) {
        std::string S;
        SmallVector<std::string, 8> Parts;
        while (DC && !DC->isTranslationUnit()) {
            if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
                if (!N->isInline() && !N->isAnonymousNamespace()) Parts.push_back(N->getNameAsString());
            } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
                Parts.push_back(R->getNameAsString());
            } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
                Parts.push_back(F->getNameAsString() + "()");
            } else if (auto *E = dyn_cast<EnumDecl>(DC)) {
                Parts.push_back(E->getNameAsString());
            }
            DC = DC->getParent();
        }
        for (auto It = Parts.rbegin(); It != Parts.rend(); ++It) {
            if (!S.empty()) S += "::";
            S += *It;
        }
        return S;
    }
    bool isLocal(const Decl *D) {
        const DeclContext *DC = D->getDeclContext();
        while (DC && !DC->isTranslationUnit()) {
            if (isa<FunctionDecl>(DC)) return true;
            DC = DC->getParent();
        }
        return false;
    }
    std::string usr(const Decl *D) {
        D = D->getCanonicalDecl();
        if (isLocal(D)) {
            auto It = LocalIds.find(D);
            if (It != LocalIds.end()) return It->second;
            std::string S = "L#" + std::to_string(LocalIds.size());
            LocalIds[D] = S;
            return S;
        }
        SmallString<256> Buf;
        if (index::generateUSRForDecl(D, Buf)) return "?";
        return std::string(Buf.str());
    }

    int type(QualType T) {
        if (T.isNull()) return -1;
        T = T.getCanonicalType();
        auto Key = std::make_pair((const void *)T.getTypePtr(), T.getCVRQualifiers());
        auto It = TIdx.find(Key);
        if (It != TIdx.end()) return It->second;
        int Id = (int)Types.size();
        TIdx[Key] = Id;
        Types.push_back(Value(nullptr));
        Object O;
        const Type *P = T.getTypePtr();
        if (T.isConstQualified()) O["c"] = 1;
        if (P->isReferenceType()) {
            O["k"] = P->isRValueReferenceType() ? "rref" : "ref";
            O["to"] = type(P->getPointeeType());
        } else if (P->isPointerType()) {
            O["k"] = "ptr";
            O["to"] = type(P->getPointeeType());
        } else if (P->isBooleanType()) {
            O["k"] = "bool";
        } else if (P->isEnumeralType()) {
            O["k"] = "enum";
            O["s"] = T.getUnqualifiedType().getAsString(PP);
        } else if (P->isIntegerType()) {
            O["k"] = "int";
            O["u"] = P->isUnsignedIntegerType() ? 1 : 0;
            O["w"] = (int)Ctx.getTypeSize(T);
        } else if (P->isFloatingType()) {
            O["k"] = "float";
            O["w"] = (int)Ctx.getTypeSize(T);
        } else if (P->isVoidType()) {
            O["k"] = "void";
        } else if (const CXXRecordDecl *R = P->getAsCXXRecordDecl()) {
            O["k"] = "rec";
            O["r"] = recName(R);
            O["s"] = T.getUnqualifiedType().getAsString(PP);
            if (inRoot(R->getLocation())) O["u"] = usr(R);
            if (R->isLambda()) O["lam"] = 1;
            if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
                Array A;
                unsigned N = 0;
                for (const TemplateArgument &TA : TS->getTemplateArgs().asArray()) {
                    if (++N > 6) break;
                    if (TA.getKind() == TemplateArgument::Type)
                        A.push_back(Object{{"t", type(TA.getAsType())}});
                    else if (TA.getKind() == TemplateArgument::Integral)
                        A.push_back(Object{{"i", intValue(TA.getAsIntegral())}});
                    else
                        A.push_back(nullptr);
                }
                O["a"] = std::move(A);
            }
        } else if (P->isArrayType()) {
            O["k"] = "arr";
            O["to"] = type(QualType(P->getArrayElementTypeNoTypeQual(), 0));
            if (auto *CA = dyn_cast<ConstantArrayType>(P)) O["n"] = (int64_t)CA->getSize().getZExtValue();
        } else {
            O["k"] = "other";
            O["s"] = T.getAsString(PP);
        }
        Types[Id] = std::move(O);
        return Id;
    }

    char passKind(QualType T) {
        T = T.getCanonicalType();
        if (T->isRValueReferenceType()) return 'R';
        if (T->isLValueReferenceType()) return T->getPointeeType().isConstQualified() ? 'c' : 'r';
        if (T->isPointerType()) return T->getPointeeType().isConstQualified() ? 'q' : 'p';
        return 'v';
    }

    int fn(const FunctionDecl *F) {
        F = F->getCanonicalDecl();
        auto It = FnIdx.find(F);
        if (It != FnIdx.end()) return It->second;
        int Id = (int)Fns.size();
        FnIdx[F] = Id;
        Fns.push_back(nullptr);
        Object O;
        O["n"] = F->getNameAsString();
        const DeclContext *DC = F->getDeclContext();
        std::string C = recName(DC);
        O["q"] = C.empty() ? F->getNameAsString() : C + "::" + F->getNameAsString();
        std::string Pass;
        for (const ParmVarDecl *P : F->parameters()) Pass += passKind(P->getType());
        O["p"] = Pass;
        O["rt"] = type(F->getReturnType());
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["c"] = C;
            O["cu"] = usr(M->getParent());
            O["m"] = M->isStatic() ? "s" : (M->isConst() ? "c" : "n");
            if (M->isVirtual()) O["v"] = 1;
            if (isa<CXXConstructorDecl>(M)) {
                auto *CD = cast<CXXConstructorDecl>(M);
                O["ctor"] = CD->isCopyOrMoveConstructor() ? "copy" : (CD->isDefaultConstructor() ? "def" : "other");
            }
            if (isa<CXXConversionDecl>(M)) O["conv"] = 1;
            if (isa<CXXDestructorDecl>(M)) O["dtor"] = 1;
            if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) O["asg"] = 1;
            if (M->isDefaulted()) O["dflt"] = 1;
        }
        bool R = inRoot(F->getLocation());
        if (R) {
            O["repo"] = 1;
        }
        if (const FunctionTemplateSpecializationInfo *TI = F->getTemplateSpecializationInfo()) {
            Array A;
            for (const TemplateArgument &TA : TI->TemplateArguments->asArray()) {
                if (TA.getKind() == TemplateArgument::Type)
                    A.push_back(Object{{"t", type(TA.getAsType())}});
                else if (TA.getKind() == TemplateArgument::Integral)
                    A.push_back(Object{{"i", intValue(TA.getAsIntegral())}});
                else
                    A.push_back(nullptr);
            }
            O["a"] = std::move(A);
        }
        O["u"] = usr(F);
        Fns[Id] = std::move(O);
        return Id;
    }

    int var(const ValueDecl *D) {
        const Decl *C = D->getCanonicalDecl();
        auto It = VarIdx.find(C);
        if (It != VarIdx.end()) return It->second;
        int Id = (int)VarIdx.size() + 1;
        VarIdx[C] = Id;
        return Id;
    }

    // ---------------------------------------------------------------- exprs
    Value constVar(const VarDecl *VD) {
        const VarDecl *Def = VD->getAnyInitializer() ? VD : nullptr;
        if (!Def) return nullptr;
        QualType T = VD->getType();
        if (!(T.isConstQualified() || VD->isConstexpr())) return nullptr;
        if (!T->isArithmeticType()) return nullptr;
        const Expr *I = VD->getAnyInitializer();
        if (I->isValueDependent()) return nullptr;
        Expr::EvalResult R;
        if (!I->EvaluateAsRValue(R, Ctx)) return nullptr;
        if (R.HasSideEffects) return nullptr;
        if (R.Val.isInt()) return intValue(R.Val.getInt());
        if (R.Val.isFloat()) return R.Val.getFloat().convertToDouble();
        return nullptr;
    }

    Value expr(const Expr *E) {
        if (!E) return nullptr;
        if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
            Value V = expr(X->getExpr());
            if (auto *O = V.getAsObject()) (*O)["dflt"] = 1;
            return V;
        }
        if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
            Value V = expr(X->getSubExpr());
            if (auto *O = V.getAsObject()) (*O)["stdil"] = 1;
            return V;
        }
        Object O;
        O["l"] = line(E->getExprLoc());
        O["t"] = type(E->getType());
        if (auto *X = dyn_cast<CastExpr>(E)) return cast_(X, std::move(O));
        if (auto *X = dyn_cast<IntegerLiteral>(E)) {
            O["k"] = "int";
            O["v"] = (int64_t)X->getValue().getLimitedValue();
            return O;
        }
        if (auto *X = dyn_cast<FloatingLiteral>(E)) {
            O["k"] = "float";
            O["v"] = X->getValue().convertToDouble();
            if (!X->getValue().isFinite()) { O["v"] = nullptr; O["k"] = "inf"; }
            return O;
        }
        if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
            O["k"] = "bool";
            O["v"] = X->getValue();
            return O;
        }
        if (auto *X = dyn_cast<CharacterLiteral>(E)) {
            O["k"] = "int";
            O["chr"] = 1;
            O["v"] = (int64_t)X->getValue();
            return O;
        }
        if (auto *X = dyn_cast<StringLiteral>(E)) {
            O["k"] = "str";
            std::string S = X->getCharByteWidth() == 1 ? X->getString().str() : "";
            O["v"] = llvm::json::fixUTF8(S);
            return O;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            O["k"] = "null";
            return O;
        }
        if (isa<CXXThisExpr>(E)) {
            O["k"] = "this";
            return O;
        }
        if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *D = X->getDecl();
            O["n"] = D->getNameAsString();
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                O["k"] = "enum";
                O["q"] = recName(D->getDeclContext()) + "::" + D->getNameAsString();
                O["v"] = intValue(EC->getInitVal());
                return O;
            }
            if (auto *FD = dyn_cast<FunctionDecl>(D)) {
                O["k"] = "fref";
                O["fn"] = fn(FD);
                return O;
            }
            if (auto *VD = dyn_cast<VarDecl>(D)) {
                Value CV = constVar(VD);
                if (CV.kind() != Value::Null) {
                    O["k"] = "cvar";
                    O["v"] = std::move(CV);
                    return O;
                }
                if (VD->isLocalVarDeclOrParm()) {
                    O["k"] = "var";
                    O["id"] = var(VD);
                    if (VD->isStaticLocal()) O["static"] = 1;
                } else {
                    O["k"] = "gvar";
                    std::string C = recName(VD->getDeclContext());
                    O["q"] = C.empty() ? VD->getNameAsString() : C + "::" + VD->getNameAsString();
                }
                return O;
            }
            if (auto *BD = dyn_cast<BindingDecl>(D)) {
                O["k"] = "bind";
                O["id"] = var(BD);
                O["e"] = expr(BD->getBinding());
                return O;
            }
            O["k"] = "unk";
            O["c"] = "DeclRef";
            return O;
        }
        if (auto *X = dyn_cast<MemberExpr>(E)) {
            const ValueDecl *D = X->getMemberDecl();
            if (auto *VD = dyn_cast<VarDecl>(D)) { // static member
                Value CV = constVar(VD);
                if (CV.kind() != Value::Null) {
                    O["k"] = "cvar";
                    O["n"] = D->getNameAsString();
                    O["v"] = std::move(CV);
                    return O;
                }
                O["k"] = "gvar";
                O["q"] = recName(VD->getDeclContext()) + "::" + VD->getNameAsString();
                return O;
            }
            O["k"] = "mem";
            O["n"] = D->getNameAsString();
            O["b"] = expr(X->getBase());
            if (X->isArrow()) O["arrow"] = 1;
            if (auto *FD = dyn_cast<FieldDecl>(D)) {
                O["c"] = recName(FD->getParent());
            }
            return O;
        }
        if (auto *X = dyn_cast<LambdaExpr>(E)) {
            O["k"] = "lambda";
            Array Caps;
            unsigned I = 0;
            auto InitIt = X->capture_init_begin();
            for (const LambdaCapture &C : X->captures()) {
                Object CO;
                if (C.capturesThis()) {
                    CO["this"] = 1;
                    if (C.getCaptureKind() == LCK_StarThis) CO["byval"] = 1;
                } else if (C.capturesVariable()) {
                    const ValueDecl *V = C.getCapturedVar();
                    CO["id"] = var(V);
                    CO["n"] = V->getNameAsString();
                    CO["ref"] = C.getCaptureKind() == LCK_ByRef;
                    if (auto *VD = dyn_cast<VarDecl>(V))
                        if (VD->isInitCapture()) { CO["init"] = 1; CO["e"] = expr(VD->getInit()); }
                }
                Caps.push_back(std::move(CO));
                ++I;
                ++InitIt;
            }
            O["caps"] = std::move(Caps);
            O["f"] = lambdaFn(X);
            return O;
        }
        if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            const FunctionDecl *FD = X->getDirectCallee();
            if (FD) {
                O["k"] = "call";
                O["fn"] = fn(FD);
                O["op"] = 1;
                Array A;
                unsigned S = 0;
                if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
                    if (!MD->isStatic()) {
                        O["o"] = expr(X->getArg(0));
                        S = 1;
                    }
                }
                for (unsigned I = S; I < X->getNumArgs(); ++I) A.push_back(expr(X->getArg(I)));
                O["a"] = std::move(A);
                return O;
            }
        }
        if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            O["k"] = "call";
            if (const CXXMethodDecl *MD = X->getMethodDecl()) O["fn"] = fn(MD);
            if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
                O["o"] = expr(ME->getBase());
                if (ME->isArrow()) O["arrow"] = 1;
                if (ME->hasQualifier()) O["qual"] = 1;
            } else {
                O["callee"] = expr(X->getCallee());
            }
            Array A;
            for (const Expr *Arg : X->arguments()) A.push_back(expr(Arg));
            O["a"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<CallExpr>(E)) {
            O["k"] = "call";
            if (const FunctionDecl *FD = X->getDirectCallee())
                O["fn"] = fn(FD);
            else
                O["callee"] = expr(X->getCallee());
            Array A;
            for (const Expr *Arg : X->arguments()) A.push_back(expr(Arg));
            O["a"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E)) { // incl. CXXTemporaryObjectExpr
            const CXXConstructorDecl *CD = X->getConstructor();
            O["k"] = "ctor";
            O["fn"] = fn(CD);
            if (X->isElidable()) O["elide"] = 1;
            if (X->isListInitialization()) O["list"] = 1;
            if (X->requiresZeroInitialization()) O["zero"] = 1;
            if (CD->isCopyOrMoveConstructor() && X->getNumArgs() >= 1) {
                // a copy of the base part of an object of a derived class
                const Expr *Src = X->getArg(0)->IgnoreParens();
                while (auto *C = dyn_cast<ImplicitCastExpr>(Src)) {
                    if (C->getCastKind() == CK_DerivedToBase || C->getCastKind() == CK_UncheckedDerivedToBase) {
                        const CXXRecordDecl *DR = C->getSubExpr()->getType()->getAsCXXRecordDecl();
                        if (DR) O["slice"] = usr(DR);
                        break;
                    }
                    Src = C->getSubExpr()->IgnoreParens();
                }
            }
            Array A;
            for (const Expr *Arg : X->arguments()) A.push_back(expr(Arg));
            O["a"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            O["k"] = "ctor";
            O["fn"] = fn(X->getConstructor());
            O["inh"] = 1;
            O["a"] = Array();
            return O;
        }
        if (auto *X = dyn_cast<InitListExpr>(E)) {
            if (X->isTransparent() && X->getNumInits() == 1) return expr(X->getInit(0));
            O["k"] = "list";
            Array A;
            for (const Expr *I : X->inits()) A.push_back(expr(I));
            O["a"] = std::move(A);
            return O;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            O["k"] = "zero";
            return O;
        }
        if (auto *X = dyn_cast<BinaryOperator>(E)) {
            O["k"] = X->isAssignmentOp() ? "asg" : "bin";
            O["op"] = X->getOpcodeStr().str();
            O["x"] = expr(X->getLHS());
            O["y"] = expr(X->getRHS());
            return O;
        }
        if (auto *X = dyn_cast<UnaryOperator>(E)) {
            O["k"] = "un";
            O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            if (X->isPostfix()) O["post"] = 1;
            O["x"] = expr(X->getSubExpr());
            return O;
        }
        if (auto *X = dyn_cast<ConditionalOperator>(E)) {
            O["k"] = "cond";
            O["x"] = expr(X->getCond());
            O["y"] = expr(X->getTrueExpr());
            O["z"] = expr(X->getFalseExpr());
            return O;
        }
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
            O["k"] = "sub";
            O["x"] = expr(X->getBase());
            O["y"] = expr(X->getIdx());
            return O;
        }
        if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            O["k"] = "new";
            O["at"] = type(X->getAllocatedType());
            if (X->getInitializer()) O["x"] = expr(X->getInitializer());
            if (X->isArray()) O["arr"] = 1;
            return O;
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
            O["k"] = "delete";
            O["x"] = expr(X->getArgument());
            return O;
        }
        if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
            O["k"] = "throw";
            if (X->getSubExpr()) O["x"] = expr(X->getSubExpr());
            return O;
        }
        if (isa<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult R;
            if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx)) {
                O["k"] = "int";
                O["v"] = intValue(R.Val.getInt());
                return O;
            }
        }
        if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
            return expr(X->getCommonExpr() ? X->getCommonExpr()->getSourceExpr() : nullptr);
        }
        if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
            if (X->getSourceExpr()) return expr(X->getSourceExpr());
        }
        O["k"] = "unk";
        O["c"] = E->getStmtClassName();
        Array A;
        for (const Stmt *S : E->children())
            if (auto *CE = dyn_cast_or_null<Expr>(S)) A.push_back(expr(CE));
        O["a"] = std::move(A);
        return O;
    }

    /// Explicit casts after which something may be written that could not be before.
    void dropsConst(const CastExpr *X) {
        auto under = [](const Expr *E) {
            QualType T = E->getType().getCanonicalType();
            return std::make_pair(E->isGLValue(), T->isPointerType() ? T->getPointeeType() : T);
        };
        auto A = under(X->getSubExpr()), B = under(X);
        bool Ptr = X->getType()->isPointerType() && X->getSubExpr()->getType()->isPointerType();
        if (!Ptr && !(A.first && B.first)) return;
        if (!A.second.isConstQualified() || B.second.isConstQualified()) return;
        std::string File;
        if (!inRoot(X->getExprLoc(), &File)) return;
        Notes.push_back(Object{{"k", "constcast"}, {"file", File}, {"l", line(X->getExprLoc())}, {"t", type(A.second)}});
    }

    Value cast_(const CastExpr *X, Object O) {
        const Expr *Sub = X->getSubExpr();
        if (isa<ExplicitCastExpr>(X)) dropsConst(X);
        switch (X->getCastKind()) {
        case CK_LValueToRValue:
        case CK_NoOp:
        case CK_FunctionToPointerDecay:
        case CK_BuiltinFnToFnPtr:
        case CK_UncheckedDerivedToBase:
        case CK_DerivedToBase:
        case CK_ConstructorConversion:
        case CK_ArrayToPointerDecay:
        case CK_LValueBitCast:
        case CK_Dependent: return expr(Sub);
        case CK_UserDefinedConversion: return expr(Sub);
        case CK_NullToPointer: O["k"] = "null"; return O;
        default: break;
        }
        const char *K = "other";
        switch (X->getCastKind()) {
        case CK_IntegralCast: K = "ii"; break;
        case CK_IntegralToFloating: K = "if"; break;
        case CK_FloatingToIntegral: K = "fi"; break;
        case CK_FloatingCast: K = "ff"; break;
        case CK_IntegralToBoolean: K = "ib"; break;
        case CK_FloatingToBoolean: K = "fb"; break;
        case CK_PointerToBoolean: K = "pb"; break;
        case CK_BaseToDerived: K = "bd"; break;
        case CK_Dynamic: K = "dyn"; break;
        case CK_ToVoid: K = "void"; break;
        default: break;
        }
        O["k"] = "cast";
        O["ck"] = K;
        O["x"] = expr(Sub);
        return O;
    }

    // ---------------------------------------------------------------- stmts
    Value declS(const VarDecl *VD) {
        Object V;
        V["id"] = var(VD);
        V["n"] = VD->getNameAsString();
        V["t"] = type(VD->getType());
        V["l"] = line(VD->getLocation());
        if (VD->isStaticLocal()) V["static"] = 1;
        if (VD->getInit()) V["i"] = expr(VD->getInit());
        if (auto *VA = Ctx.getAsVariableArrayType(VD->getType())) {
            V["vla"] = expr(VA->getSizeExpr());
            V["et"] = type(VA->getElementType());
        }
        if (auto *DD = dyn_cast<DecompositionDecl>(VD)) {
            Array B;
            for (const BindingDecl *BD : DD->bindings())
                B.push_back(Object{{"id", var(BD)}, {"n", BD->getNameAsString()}, {"e", expr(BD->getBinding())}});
            V["binds"] = std::move(B);
        }
        return V;
    }

    Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        Object O;
        O["l"] = line(S->getBeginLoc());
        if (auto *E = dyn_cast<Expr>(S)) {
            O["k"] = "expr";
            O["x"] = expr(E);
            return O;
        }
        if (auto *X = dyn_cast<CompoundStmt>(S)) {
            O["k"] = "seq";
            Array A;
            for (const Stmt *C : X->body()) A.push_back(stmt(C));
            O["a"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<DeclStmt>(S)) {
            O["k"] = "decl";
            Array A;
            for (const Decl *D : X->decls())
                if (auto *VD = dyn_cast<VarDecl>(D)) A.push_back(declS(VD));
            O["a"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<IfStmt>(S)) {
            O["k"] = "if";
            if (X->getInit()) O["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) O["cv"] = declS(X->getConditionVariable());
            if (X->isConstexpr()) {
                if (auto V = X->getNondiscardedCase(Ctx)) {
                    if (*V) return stmt(*V);
                    O["k"] = "seq";
                    O["a"] = Array();
                    return O;
                }
            }
            O["c"] = expr(X->getCond());
            O["y"] = stmt(X->getThen());
            if (X->getElse()) O["z"] = stmt(X->getElse());
            return O;
        }
        if (auto *X = dyn_cast<ForStmt>(S)) {
            O["k"] = "for";
            if (X->getInit()) O["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) O["cv"] = declS(X->getConditionVariable());
            if (X->getCond()) O["c"] = expr(X->getCond());
            if (X->getInc()) O["inc"] = expr(X->getInc());
            O["b"] = stmt(X->getBody());
            O["el"] = line(X->getEndLoc());
            return O;
        }
        if (auto *X = dyn_cast<WhileStmt>(S)) {
            O["k"] = "while";
            if (X->getConditionVariable()) O["cv"] = declS(X->getConditionVariable());
            O["c"] = expr(X->getCond());
            O["b"] = stmt(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<DoStmt>(S)) {
            O["k"] = "do";
            O["c"] = expr(X->getCond());
            O["b"] = stmt(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            O["k"] = "range";
            O["v"] = declS(X->getLoopVariable());
            O["x"] = expr(X->getRangeInit());
            O["b"] = stmt(X->getBody());
            if (X->getInit()) O["init"] = stmt(X->getInit());
            return O;
        }
        if (auto *X = dyn_cast<ReturnStmt>(S)) {
            O["k"] = "ret";
            if (X->getRetValue()) O["x"] = expr(X->getRetValue());
            return O;
        }
        if (isa<BreakStmt>(S)) { O["k"] = "break"; return O; }
        if (isa<ContinueStmt>(S)) { O["k"] = "continue"; return O; }
        if (isa<NullStmt>(S)) { O["k"] = "seq"; O["a"] = Array(); return O; }
        if (auto *X = dyn_cast<SwitchStmt>(S)) {
            O["k"] = "switch";
            if (X->getInit()) O["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) O["cv"] = declS(X->getConditionVariable());
            O["c"] = expr(X->getCond());
            O["b"] = stmt(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<CaseStmt>(S)) {
            O["k"] = "case";
            O["v"] = expr(X->getLHS());
            Expr::EvalResult R;
            if (!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, Ctx))
                O["cv"] = intValue(R.Val.getInt());
            O["b"] = stmt(X->getSubStmt());
            return O;
        }
        if (auto *X = dyn_cast<DefaultStmt>(S)) {
            O["k"] = "default";
            O["b"] = stmt(X->getSubStmt());
            return O;
        }
        if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            O["k"] = "try";
            O["b"] = stmt(X->getTryBlock());
            Array H;
            for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
                const CXXCatchStmt *C = X->getHandler(I);
                Object HO;
                if (C->getExceptionDecl()) HO["v"] = declS(C->getExceptionDecl());
                HO["t"] = type(C->getCaughtType());
                HO["b"] = stmt(C->getHandlerBlock());
                H.push_back(std::move(HO));
            }
            O["h"] = std::move(H);
            return O;
        }
        if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        O["k"] = "unks";
        O["c"] = S->getStmtClassName();
        return O;
    }

    Value params(const FunctionDecl *F) {
        Array A;
        for (const ParmVarDecl *P : F->parameters())
            A.push_back(Object{{"id", var(P)}, {"n", P->getNameAsString()}, {"t", type(P->getType())}});
        return A;
    }

    Value lambdaFn(const LambdaExpr *X) {
        Object O;
        const CXXMethodDecl *M = X->getCallOperator();
        const Stmt *Body = X->getBody();
        O["l"] = line(X->getBeginLoc());
        if (M->isDependentContext() || X->isGenericLambda()) {
            O["dep"] = 1;
            if (const FunctionTemplateDecl *FT = X->getDependentCallOperator()) {
                for (const FunctionDecl *S : FT->specializations())
                    if (S->hasBody()) { M = cast<CXXMethodDecl>(S); Body = S->getBody(); O.erase("dep"); break; }
            }
        }
        O["params"] = params(M);
        O["rt"] = type(M->getReturnType());
        O["body"] = stmt(Body);
        return O;
    }

    void function(const FunctionDecl *F) {
        std::string File;
        if (!inRoot(F->getLocation(), &File)) return;
        if (F->isDependentContext()) return;
        if (!F->doesThisDeclarationHaveABody() && !(isa<CXXConstructorDecl>(F) && F->isThisDeclarationADefinition())) return;
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda()) return;
        if (F->isDefaulted() && !isa<CXXConstructorDecl>(F) && !isa<CXXDestructorDecl>(F)) return;
        Object O;
        O["u"] = usr(F);
        O["fn"] = fn(F);
        O["file"] = File;
        O["l"] = line(F->getLocation());
        O["params"] = params(F);
        O["rt"] = type(F->getReturnType());
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            Array Ov;
            for (const CXXMethodDecl *B : M->overridden_methods()) Ov.push_back(usr(B));
            O["over"] = std::move(Ov);
        }
        if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
            Array I;
            for (const CXXCtorInitializer *In : C->inits()) {
                Object IO;
                IO["l"] = line(In->getSourceLocation());
                if (In->isWritten()) IO["w"] = 1;
                if (In->isAnyMemberInitializer()) {
                    IO["m"] = In->getAnyMember()->getNameAsString();
                } else if (In->isBaseInitializer()) {
                    IO["b"] = type(QualType(In->getBaseClass(), 0));
                } else if (In->isDelegatingInitializer()) {
                    IO["d"] = 1;
                }
                IO["x"] = expr(In->getInit());
                I.push_back(std::move(IO));
            }
            O["inits"] = std::move(I);
        }
        if (F->getBody()) O["body"] = stmt(F->getBody());
        Functions.push_back(std::move(O));
    }

    void record(const CXXRecordDecl *R) {
        std::string File;
        if (!inRoot(R->getLocation(), &File)) return;
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
        std::string U = usr(R);
        if (!SeenClass.insert(U).second) return;
        Object O;
        O["u"] = U;
        O["q"] = recName(R);
        O["t"] = type(QualType(R->getTypeForDecl(), 0));
        O["file"] = File;
        O["l"] = line(R->getLocation());
        Array B;
        for (const CXXBaseSpecifier &BS : R->bases()) {
            Object BO;
            BO["t"] = type(BS.getType());
            if (auto *BR = BS.getType()->getAsCXXRecordDecl()) BO["u"] = usr(BR);
            B.push_back(std::move(BO));
        }
        O["bases"] = std::move(B);
        Array F;
        for (const FieldDecl *FD : R->fields()) {
            Object FO;
            FO["n"] = FD->getNameAsString();
            FO["t"] = type(FD->getType());
            FO["l"] = line(FD->getLocation());
            if (FD->isMutable()) FO["mut"] = 1;
            if (FD->hasInClassInitializer() && FD->getInClassInitializer()) FO["i"] = expr(FD->getInClassInitializer());
            else if (FD->hasInClassInitializer()) FO["i"] = Object{{"k", "unk"}};
            F.push_back(std::move(FO));
        }
        O["fields"] = std::move(F);
        Array M;
        for (const CXXMethodDecl *MD : R->methods()) {
            if (MD->isImplicit()) continue;
            Object MO;
            MO["fn"] = fn(MD);
            MO["l"] = line(MD->getLocation());
            if (MD->isVirtual()) MO["virt"] = 1;
            if (MD->isPureVirtual()) MO["pure"] = 1;
            if (MD->hasAttr<OverrideAttr>()) MO["ovr"] = 1;
            MO["acc"] = (int)MD->getAccess();
            Array Ov;
            for (const CXXMethodDecl *Bm : MD->overridden_methods()) Ov.push_back(usr(Bm));
            MO["over"] = std::move(Ov);
            M.push_back(std::move(MO));
        }
        O["methods"] = std::move(M);
        if (R->isPolymorphic()) O["poly"] = 1;
        if (R->isAbstract()) O["abs"] = 1;
        if (const CXXDestructorDecl *D = R->getDestructor())
            if (D->isVirtual()) O["vdtor"] = 1;
        Classes.push_back(std::move(O));
    }

    void global(const VarDecl *VD) {
        std::string File;
        if (!VD->hasGlobalStorage() || VD->isStaticLocal()) return;
        if (!inRoot(VD->getLocation(), &File)) return;
        if (VD->getDeclContext()->isDependentContext()) return;
        std::string C = recName(VD->getDeclContext());
        std::string Q = C.empty() ? VD->getNameAsString() : C + "::" + VD->getNameAsString();
        if (!SeenGlobal.insert(Q).second) return;
        Object O;
        O["q"] = Q;
        O["t"] = type(VD->getType());
        O["file"] = File;
        O["l"] = line(VD->getLocation());
        if (VD->getAnyInitializer()) O["i"] = expr(VD->getAnyInitializer());
        Globals.push_back(std::move(O));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
  public:
    explicit Visitor(Dumper &D) : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool TraverseDecl(Decl *X) {
        // prune declarations that live outside the analysed tree (namespaces are
        // entered: their members may come from different files)
        if (X && !isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X) && !isa<LinkageSpecDecl>(X) &&
            !isa<ClassTemplateDecl>(X) && !isa<FunctionTemplateDecl>(X)) {
            if (!D.inRoot(X->getLocation())) return true;
        }
        if (X && (isa<ClassTemplateDecl>(X) || isa<FunctionTemplateDecl>(X)))
            if (!D.inRoot(X->getLocation())) return true;
        return RecursiveASTVisitor<Visitor>::TraverseDecl(X);
    }
    bool VisitFunctionDecl(FunctionDecl *F) {
        D.function(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        D.record(R);
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        D.global(V);
        return true;
    }

  private:
    Dumper &D;
};

class Consumer : public ASTConsumer {
  public:
    explicit Consumer(CompilerInstance &CI) : CI(CI) {}
    bool shouldSkipFunctionBody(Decl *D) override {
        SourceManager &SM = CI.getSourceManager();
        SourceLocation L = SM.getExpansionLoc(D->getLocation());
        if (L.isInvalid()) return false;
        return SM.isInSystemHeader(L);
    }
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) {
            llvm::errs() << "hrmx: compilation errors\n";
        }
        Dumper D(C);
        Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        std::error_code EC;
        llvm::raw_fd_ostream OS(OutFile, EC);
        Object R;
        R["functions"] = std::move(D.Functions);
        R["classes"] = std::move(D.Classes);
        R["globals"] = std::move(D.Globals);
        R["notes"] = std::move(D.Notes);
        R["fns"] = std::move(D.Fns);
        R["types"] = std::move(D.Types);
        R["errors"] = C.getDiagnostics().hasErrorOccurred();
        OS << Value(std::move(R));
    }

  private:
    CompilerInstance &CI;
};

class Action : public ASTFrontendAction {
  protected:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
        CI.getFrontendOpts().SkipFunctionBodies = true;
        return std::make_unique<Consumer>(CI);
    }
};

} // namespace

int main(int argc, const char **argv) {
    std::string Source;
    std::vector<std::string> Flags;
    int I = 1;
    for (; I < argc; ++I) {
        StringRef A = argv[I];
        if (A == "--") { ++I; break; }
        if (A.starts_with("--root=")) {
            Roots.push_back(A.substr(7).str());
            if (Roots.back().back() != '/') Roots.back() += '/';
            continue;
        }
        if (A == "-o" && I + 1 < argc) { OutFile = argv[++I]; continue; }
        Source = A.str();
    }
    for (; I < argc; ++I) Flags.push_back(argv[I]);
    if (Source.empty() || OutFile.empty() || Roots.empty()) {
        llvm::errs() << "usage: hrmx --root=DIR -o OUT source -- flags\n";
        return 2;
    }
    tooling::FixedCompilationDatabase DB(".", Flags);
    tooling::ClangTool Tool(DB, {Source});
    return Tool.run(tooling::newFrontendActionFactory<Action>().get()) == 0 ? 0 : 1;
}
