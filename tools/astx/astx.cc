// astx: clang-18 plugin. Exports the resolved, type-checked AST of every
// function defined in the repository under analysis (instantiated templates,
// lambdas, constructors with their initialisers), the records, and the
// variables with static storage, as JSON. No judgement is made here.
#include <map>
#include <set>
#include <string>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/Preprocessor.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

namespace {

struct Opts {
  std::string Root = "/repo/";
  std::string Exclude = "/repo/_build/";
  std::string Out = "out.json";
};

class Exporter : public RecursiveASTVisitor<Exporter> {
 public:
  Exporter(CompilerInstance &CI, const Opts &O)
      : CI(CI), Ctx(CI.getASTContext()), SM(CI.getSourceManager()), O(O),
        PP(CI.getLangOpts()), MC(ItaniumMangleContext::create(Ctx, CI.getDiagnostics())) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = PrintingPolicy(CI.getLangOpts()).SuppressInlineNamespace;
    PP.Bool = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  Array Functions, Records, Vars, Asserts;

  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    std::string S = absPath(F);
    if (S.compare(0, O.Root.size(), O.Root) != 0) return false;
    if (S.compare(0, O.Exclude.size(), O.Exclude) == 0) return false;
    if (S.size() > 5 && (S.find(".pb.h") != std::string::npos || S.find(".pb.cc") != std::string::npos)) return false;
    return true;
  }
  std::string absPath(StringRef F) {
    if (F.empty()) return "";
    if (F[0] == '/') return F.str();
    return O.Root + F.str();
  }
  std::string relFile(SourceLocation L) {
    if (L.isInvalid()) return "?";
    std::string S = absPath(SM.getFilename(SM.getExpansionLoc(L)));
    if (S.compare(0, O.Root.size(), O.Root) == 0) return S.substr(O.Root.size());
    return S;
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  int64_t id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    int64_t N = Ids.size() + 1;
    Ids[D] = N;
    return N;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    T = T.getCanonicalType();
    std::string S = T.getAsString(PP);
    auto It = Types.find(S);
    if (It == Types.end()) {
      Types[S] = Object();
      Object R;
      std::string K = "?";
      if (T->isReferenceType()) {
        K = T->isRValueReferenceType() ? "R" : "r";
        R["to"] = ty(T->getPointeeType());
      } else if (T->isBooleanType()) K = "b";
      else if (T->isVoidType()) K = "v";
      else if (T->isEnumeralType()) K = "e";
      else if (T->isIntegerType()) { K = T->isUnsignedIntegerType() ? "u" : "i"; R["w"] = (int64_t)Ctx.getTypeSize(T); }
      else if (T->isFloatingType()) { K = "f"; R["w"] = (int64_t)Ctx.getTypeSize(T); }
      else if (T->isFunctionType()) K = "F";
      else if (T->isPointerType()) { K = "p"; R["to"] = ty(T->getPointeeType()); }
      else if (T->isMemberPointerType()) K = "m";
      else if (T->isNullPtrType()) K = "n";
      else if (T->isArrayType()) {
        K = "a";
        R["to"] = ty(QualType(T->getArrayElementTypeNoTypeQual(), 0));
        if (const auto *CA = Ctx.getAsConstantArrayType(T)) R["n"] = (int64_t)CA->getSize().getZExtValue();
      } else if (const auto *RD = T->getAsCXXRecordDecl()) {
        K = "c";
        R["cls"] = T.getUnqualifiedType().getAsString(PP);
        if (RD->isLambda()) { R["lambda"] = id(RD); }
        if (inRepo(RD->getLocation())) R["repo"] = true;
        if (RD->hasDefinition()) {
          Array Bs;
          for (auto &B : RD->bases()) Bs.push_back(ty(B.getType()));
          R["bases"] = std::move(Bs);
          if (RD->isAbstract()) R["abstract"] = true;
        }
      }
      R["k"] = K;
      if (T.isConstQualified()) R["const"] = true;
      Types[S] = std::move(R);
    }
    return S;
  }
  std::map<std::string, Object> Types;
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    OS.flush();
    return S;
  }
  std::string mangled(const NamedDecl *D) {
    if (const auto *FD = dyn_cast<FunctionDecl>(D)) {
      if (FD->isDependentContext()) return "";
      if (FD->isMain()) return "main";
      if (FD->isExternC()) return FD->getNameAsString();
      std::string S;
      llvm::raw_string_ostream OS(S);
      if (const auto *C = dyn_cast<CXXConstructorDecl>(FD))
        MC->mangleName(GlobalDecl(C, Ctor_Complete), OS);
      else if (const auto *DD = dyn_cast<CXXDestructorDecl>(FD))
        MC->mangleName(GlobalDecl(DD, Dtor_Complete), OS);
      else
        MC->mangleName(GlobalDecl(FD), OS);
      OS.flush();
      return S;
    }
    return "";
  }
  std::string strip(QualType T) { return ty(T.getNonReferenceType().getUnqualifiedType()); }

  // Describes a type enough for the analysis.
  Value tyv(QualType T) { return ty(T); }

  Value fnRef(const FunctionDecl *FD) {
    Object R;
    R["qn"] = qn(FD);
    R["id"] = id(FD);
    R["ret"] = ty(FD->getReturnType());
    Array Ps;
    for (auto *P : FD->parameters()) Ps.push_back(ty(P->getType()));
    R["pt"] = std::move(Ps);
    if (FD->isVariadic()) R["va"] = true;
    const FunctionDecl *Def = nullptr;
    if (FD->hasBody(Def) && inRepo(Def->getLocation())) R["body"] = true;
    if (inRepo(FD->getLocation())) R["repo"] = true;
    if (!FD->isDependentContext() && !(isa<CXXMethodDecl>(FD) && cast<CXXMethodDecl>(FD)->getParent()->isLambda()))
      R["mg"] = mangled(FD);
    if (const auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      R["method"] = true;
      R["cls"] = ty(Ctx.getRecordType(M->getParent()));
      if (M->isStatic()) R["static"] = true;
      if (M->isConst()) R["const"] = true;
      if (M->isVirtual()) R["virt"] = true;
      if (M->getParent()->isLambda()) R["lambda"] = id(M->getParent());
      if (const auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        if (C->isCopyConstructor()) R["ck"] = "copy";
        else if (C->isMoveConstructor()) R["ck"] = "move";
        else if (C->isDefaultConstructor()) R["ck"] = "default";
        else R["ck"] = "other";
        if (C->isImplicit() || C->isDefaulted()) R["implicit"] = true;
      }
      if (M->isCopyAssignmentOperator()) R["ck"] = "copyassign";
      if (M->isMoveAssignmentOperator()) R["ck"] = "moveassign";
      if (M->isDefaulted()) R["implicit"] = true;
    }
    if (const auto *TA = FD->getTemplateSpecializationArgs()) {
      Array A;
      for (auto &X : TA->asArray()) {
        if (X.getKind() == TemplateArgument::Type) A.push_back(ty(X.getAsType()));
        else if (X.getKind() == TemplateArgument::Integral) A.push_back(llvm::toString(X.getAsIntegral(), 10));
        else A.push_back("?");
      }
      R["ta"] = std::move(A);
    }
    return R;
  }

  Value varRef(const ValueDecl *D) {
    Object R;
    R["k"] = "ref";
    R["n"] = D->getNameAsString();
    R["d"] = id(D);
    R["t"] = ty(D->getType());
    if (isa<ParmVarDecl>(D)) R["dk"] = "parm";
    else if (const auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isStaticLocal()) R["dk"] = "slocal";
      else if (V->hasGlobalStorage()) R["dk"] = "global";
      else R["dk"] = "var";
      if (V->hasGlobalStorage()) {
        R["qn"] = qn(V);
        R["file"] = relFile(V->getLocation());
        if (V->getType().isConstQualified()) {
          R["const"] = true;
          if (const VarDecl *Def = V->getAnyInitializer() ? V : nullptr) {
            (void)Def;
            const VarDecl *InitD = nullptr;
            const Expr *Init = V->getAnyInitializer(InitD);
            if (Init && !Init->isValueDependent() && V->getType()->isArithmeticType()) {
              if (const APValue *AV = InitD->evaluateValue()) {
                if (AV->isInt()) R["cv"] = llvm::toString(AV->getInt(), 10);
                else if (AV->isFloat()) { llvm::SmallString<32> S; AV->getFloat().toString(S, 20); R["cvf"] = S.str().str(); }
              }
            }
          }
        }
      }
    } else if (const auto *E = dyn_cast<EnumConstantDecl>(D)) {
      R["dk"] = "enum";
      R["v"] = llvm::toString(E->getInitVal(), 10);
      R["qn"] = qn(E);
    } else if (isa<BindingDecl>(D)) R["dk"] = "binding";
    else if (isa<FieldDecl>(D)) R["dk"] = "field";
    else R["dk"] = "other";
    return R;
  }

  Value base(const char *K, const Expr *E) { Object R; R["k"] = K; return R; }

  Object mk(const char *K, const Stmt *S) {
    Object R;
    R["k"] = K;
    R["l"] = line(S->getBeginLoc());
    if (const auto *E = dyn_cast<Expr>(S)) R["t"] = ty(E->getType());
    return R;
  }

  Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> Rg) {
    Array A;
    for (const Expr *E : Rg) A.push_back(expr(E));
    return A;
  }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    // Integer constants the front end itself folds (sizeof, constexpr).
    if (const auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (const auto *P = dyn_cast<FullExpr>(E)) return expr(P->getSubExpr());
    if (const auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) {
      Object R = mk("mat", E);
      R["e"] = expr(P->getSubExpr());
      return R;
    }
    if (const auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (const auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (const auto *P = dyn_cast<CXXDefaultArgExpr>(E)) {
      Object R = mk("defarg", E);
      R["e"] = expr(P->getExpr());
      return R;
    }
    if (const auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (const auto *P = dyn_cast<GenericSelectionExpr>(E)) return expr(P->getResultExpr());
    if (const auto *P = dyn_cast<ChooseExpr>(E)) return expr(P->getChosenSubExpr());
    if (const auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) {
      Object R = mk("initlist_std", E);
      R["e"] = expr(P->getSubExpr());
      return R;
    }
    if (const auto *C = dyn_cast<CastExpr>(E)) {
      const char *CK = C->getCastKindName();
      switch (C->getCastKind()) {
        case CK_NoOp:
        case CK_FunctionToPointerDecay:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
        case CK_BuiltinFnToFnPtr:
          return expr(C->getSubExpr());
        default: {
          Object R = mk("cast", E);
          R["ck"] = CK;
          R["e"] = expr(C->getSubExpr());
          if (isa<ExplicitCastExpr>(C)) R["x"] = true;
          R["ft"] = ty(C->getSubExpr()->getType());
          return R;
        }
      }
    }
    if (const auto *X = dyn_cast<IntegerLiteral>(E)) {
      Object R = mk("int", E);
      R["v"] = llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerOrEnumerationType());
      return R;
    }
    if (const auto *X = dyn_cast<CharacterLiteral>(E)) {
      Object R = mk("int", E);
      R["v"] = std::to_string(X->getValue());
      return R;
    }
    if (const auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object R = mk("bool", E);
      R["v"] = X->getValue();
      return R;
    }
    if (const auto *X = dyn_cast<FloatingLiteral>(E)) {
      Object R = mk("float", E);
      llvm::SmallString<32> S;
      X->getValue().toString(S, 20);
      R["v"] = S.str().str();
      return R;
    }
    if (const auto *X = dyn_cast<StringLiteral>(E)) {
      Object R = mk("str", E);
      std::string B = X->getBytes().str();
      R["v"] = llvm::json::isUTF8(B) ? B : llvm::json::fixUTF8(B);
      return R;
    }
    if (const auto *X = dyn_cast<PredefinedExpr>(E)) {
      Object R = mk("str", E);
      R["v"] = X->getFunctionName() ? X->getFunctionName()->getString().str() : "";
      return R;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("null", E);
    if (isa<CXXThisExpr>(E)) return mk("this", E);
    if (const auto *X = dyn_cast<DeclRefExpr>(E)) {
      if (const auto *FD = dyn_cast<FunctionDecl>(X->getDecl())) {
        Object R = mk("fnref", E);
        R["fn"] = fnRef(FD);
        return R;
      }
      if (const auto *B = dyn_cast<BindingDecl>(X->getDecl())) {
        if (const auto *HV = B->getHoldingVar()) {
          Value V = varRef(HV);
          (*V.getAsObject())["l"] = line(E->getBeginLoc());
          return V;
        }
        Object R = mk("bindref", E);
        R["d"] = id(B);
        R["n"] = B->getNameAsString();
        R["e"] = expr(B->getBinding());
        return R;
      }
      Value V = varRef(X->getDecl());
      (*V.getAsObject())["l"] = line(E->getBeginLoc());
      if (X->refersToEnclosingVariableOrCapture()) (*V.getAsObject())["cap"] = true;
      return V;
    }
    if (const auto *X = dyn_cast<MemberExpr>(E)) {
      if (const auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        Object R = mk("mem", E);
        R["b"] = expr(X->getBase());
        R["arrow"] = X->isArrow();
        R["f"] = F->getNameAsString();
        R["own"] = ty(Ctx.getRecordType(F->getParent()));
        R["d"] = id(F);
        return R;
      }
      if (const auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        Value VV = varRef(V);
        (*VV.getAsObject())["l"] = line(E->getBeginLoc());
        return VV;
      }
      if (isa<EnumConstantDecl>(X->getMemberDecl())) return varRef(X->getMemberDecl());
      Object R = mk("memfn", E);
      if (const auto *FD = dyn_cast<FunctionDecl>(X->getMemberDecl())) R["fn"] = fnRef(FD);
      R["b"] = expr(X->getBase());
      R["arrow"] = X->isArrow();
      return R;
    }
    if (const auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult ER;
      if (X->EvaluateAsInt(ER, Ctx)) {
        Object R = mk("int", E);
        R["v"] = llvm::toString(ER.Val.getInt(), 10);
        R["sizeof"] = true;
        return R;
      }
    }
    if (const auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      Object R = mk("call", E);
      const auto *MD = X->getMethodDecl();
      if (MD) R["fn"] = fnRef(MD);
      const Expr *Cal = X->getCallee()->IgnoreParens();
      if (const auto *ME = dyn_cast<MemberExpr>(Cal)) {
        R["obj"] = expr(ME->getBase());
        R["objt"] = ty(ME->getBase()->getType());
        R["arrow"] = ME->isArrow();
        if (MD && MD->isVirtual() && !ME->hasQualifier()) R["vcall"] = true;
      } else {
        R["fnx"] = expr(Cal);
      }
      R["args"] = exprs(X->arguments());
      R["gl"] = E->isGLValue();
      return R;
    }
    if (const auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object R = mk("call", E);
      R["op"] = getOperatorSpelling(X->getOperator());
      const auto *FD = X->getDirectCallee();
      if (FD) R["fn"] = fnRef(FD);
      Array A;
      unsigned I = 0;
      for (const Expr *Arg : X->arguments()) {
        if (I == 0 && FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
          R["obj"] = expr(Arg);
          R["objt"] = ty(Arg->getType());
          R["arrow"] = false;
        } else {
          A.push_back(expr(Arg));
        }
        ++I;
      }
      if (FD && isa<CXXMethodDecl>(FD) && cast<CXXMethodDecl>(FD)->isVirtual()) R["vcall"] = true;
      R["args"] = std::move(A);
      R["gl"] = E->isGLValue();
      return R;
    }
    if (const auto *X = dyn_cast<CallExpr>(E)) {
      Object R = mk("call", E);
      const FunctionDecl *FD = X->getDirectCallee();
      if (FD) R["fn"] = fnRef(FD);
      else R["fnx"] = expr(X->getCallee());
      R["args"] = exprs(X->arguments());
      R["gl"] = E->isGLValue();
      return R;
    }
    if (const auto *X = dyn_cast<CXXConstructExpr>(E)) {
      Object R = mk("ctor", E);
      R["fn"] = fnRef(X->getConstructor());
      Array A;
      for (const Expr *Arg : X->arguments()) A.push_back(expr(Arg));
      R["args"] = std::move(A);
      if (X->isElidable()) R["el"] = true;
      if (X->isListInitialization()) R["list"] = true;
      if (X->isStdInitListInitialization()) R["il"] = true;
      if (X->requiresZeroInitialization()) R["zero"] = true;
      return R;
    }
    if (const auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      Object R = mk("ctor", E);
      R["fn"] = fnRef(X->getConstructor());
      R["args"] = Array();
      R["inherited"] = true;
      return R;
    }
    if (const auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *SX = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!SX) SX = X;
      Object R = mk("init", E);
      Array A;
      for (const Expr *I : SX->inits()) A.push_back(expr(I));
      R["es"] = std::move(A);
      if (const auto *RT = SX->getType()->getAsCXXRecordDecl()) {
        Array Fs;
        for (auto &B : RT->bases()) Fs.push_back("<base:" + ty(B.getType()) + ">");
        for (auto *F : RT->fields()) Fs.push_back(F->getNameAsString());
        R["fields"] = std::move(Fs);
        R["rec"] = true;
      }
      return R;
    }
    if (const auto *X = dyn_cast<UnaryOperator>(E)) {
      Object R = mk("un", E);
      R["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      R["post"] = X->isPostfix();
      R["e"] = expr(X->getSubExpr());
      return R;
    }
    if (const auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      Object R = mk("cassign", E);
      R["op"] = X->getOpcodeStr().drop_back(1).str();
      R["a"] = expr(X->getLHS());
      R["b"] = expr(X->getRHS());
      R["ct"] = ty(X->getComputationResultType());
      return R;
    }
    if (const auto *X = dyn_cast<BinaryOperator>(E)) {
      Object R = mk("bin", E);
      R["op"] = X->getOpcodeStr().str();
      R["a"] = expr(X->getLHS());
      R["b"] = expr(X->getRHS());
      R["at"] = ty(X->getLHS()->getType());
      return R;
    }
    if (const auto *X = dyn_cast<ConditionalOperator>(E)) {
      Object R = mk("cond", E);
      R["c"] = expr(X->getCond());
      R["a"] = expr(X->getTrueExpr());
      R["b"] = expr(X->getFalseExpr());
      R["gl"] = E->isGLValue();
      return R;
    }
    if (const auto *X = dyn_cast<BinaryConditionalOperator>(E)) {
      Object R = mk("cond", E);
      R["c"] = expr(X->getCond());
      R["a"] = expr(X->getCommon());
      R["b"] = expr(X->getFalseExpr());
      R["gl"] = E->isGLValue();
      return R;
    }
    if (const auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      if (X->getSourceExpr()) return expr(X->getSourceExpr());
      return mk("opaque", E);
    }
    if (const auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      Object R = mk("sub", E);
      R["b"] = expr(X->getBase());
      R["i"] = expr(X->getIdx());
      return R;
    }
    if (const auto *X = dyn_cast<LambdaExpr>(E)) {
      Object R = mk("lambda", E);
      R["cls"] = id(X->getLambdaClass());
      Array Cs;
      auto FieldIt = X->getLambdaClass()->field_begin();
      auto InitIt = X->capture_init_begin();
      for (const auto &C : X->captures()) {
        Object CO;
        if (C.capturesThis()) CO["this"] = true;
        else if (C.capturesVariable()) {
          CO["d"] = id(C.getCapturedVar());
          CO["n"] = C.getCapturedVar()->getName().str();
        }
        CO["byref"] = C.getCaptureKind() == LCK_ByRef;
        CO["init"] = expr(*InitIt);
        if (C.capturesVariable() && C.getCapturedVar()->isInitCapture()) CO["initcap"] = true;
        Cs.push_back(std::move(CO));
        ++InitIt;
        ++FieldIt;
      }
      R["caps"] = std::move(Cs);
      const CXXMethodDecl *Op = X->getCallOperator();
      if (X->isGenericLambda()) {
        R["generic"] = true;
        Array Is;
        if (auto *FT = X->getLambdaClass()->getDependentLambdaCallOperator())
          for (auto *S : FT->specializations()) Is.push_back(fnDef(S));
        R["insts"] = std::move(Is);
      } else {
        R["op"] = fnDef(Op);
      }
      return R;
    }
    if (const auto *X = dyn_cast<CXXNewExpr>(E)) {
      Object R = mk("new", E);
      R["at"] = ty(X->getAllocatedType());
      if (X->isArray()) R["arr"] = true;
      R["init"] = X->getInitializer() ? expr(X->getInitializer()) : Value(nullptr);
      return R;
    }
    if (const auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      Object R = mk("delete", E);
      R["e"] = expr(X->getArgument());
      return R;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return mk("zero", E);
    if (const auto *X = dyn_cast<CXXThrowExpr>(E)) {
      Object R = mk("throw", E);
      R["e"] = X->getSubExpr() ? expr(X->getSubExpr()) : Value(nullptr);
      return R;
    }
    if (const auto *X = dyn_cast<StmtExpr>(E)) {
      Object R = mk("stmtexpr", E);
      R["s"] = stmt(X->getSubStmt());
      return R;
    }
    if (const auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
      Object R = mk("arrinit", E);
      R["e"] = expr(X->getCommonExpr());
      return R;
    }
    // Anything else: keep the children and the class name.
    Object R = mk("other", E);
    R["cls"] = E->getStmtClassName();
    Expr::EvalResult ER;
    if (!E->isValueDependent() && E->EvaluateAsInt(ER, Ctx)) {
      Object R2 = mk("int", E);
      R2["v"] = llvm::toString(ER.Val.getInt(), 10);
      return R2;
    }
    Array A;
    for (const Stmt *C : E->children())
      if (C) { if (const auto *CE = dyn_cast<Expr>(C)) A.push_back(expr(CE)); }
    R["es"] = std::move(A);
    return R;
  }

  Value varDecl(const VarDecl *V) {
    Object R;
    R["d"] = id(V);
    R["n"] = V->getNameAsString();
    R["t"] = ty(V->getType());
    R["l"] = line(V->getLocation());
    if (V->isStaticLocal()) R["static"] = true;
    if (V->getInit()) R["init"] = expr(V->getInit());
    if (const auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array A;
      for (auto *B : DD->bindings()) {
        Object BO;
        BO["d"] = id(B);
        BO["n"] = B->getNameAsString();
        if (auto *HV = B->getHoldingVar()) {
          BO["hv"] = varDecl(HV);
        } else {
          BO["e"] = expr(B->getBinding());
        }
        A.push_back(std::move(BO));
      }
      R["binds"] = std::move(A);
    }
    return R;
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (const auto *E = dyn_cast<Expr>(S)) {
      Object R = mk("expr", S);
      R["e"] = expr(E);
      return R;
    }
    if (const auto *X = dyn_cast<CompoundStmt>(S)) {
      Object R = mk("block", S);
      Array A;
      for (const Stmt *C : X->body()) A.push_back(stmt(C));
      R["ss"] = std::move(A);
      R["el"] = line(X->getRBracLoc());
      return R;
    }
    if (const auto *X = dyn_cast<DeclStmt>(S)) {
      Object R = mk("decl", S);
      Array A;
      for (const Decl *D : X->decls())
        if (const auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      R["vs"] = std::move(A);
      return R;
    }
    if (const auto *X = dyn_cast<IfStmt>(S)) {
      Object R = mk("if", S);
      if (X->isConstexpr() || X->isConsteval()) {
        if (auto ND = X->getNondiscardedCase(Ctx)) {
          if (*ND) return stmt(*ND);
          return mk("nop", S);
        }
      }
      R["init"] = X->getInit() ? stmt(X->getInit()) : Value(nullptr);
      if (X->getConditionVariable()) R["cv"] = varDecl(X->getConditionVariable());
      R["c"] = expr(X->getCond());
      R["a"] = stmt(X->getThen());
      R["b"] = stmt(X->getElse());
      return R;
    }
    if (const auto *X = dyn_cast<ForStmt>(S)) {
      Object R = mk("for", S);
      R["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) R["cv"] = varDecl(X->getConditionVariable());
      R["c"] = expr(X->getCond());
      R["inc"] = expr(X->getInc());
      R["body"] = stmt(X->getBody());
      return R;
    }
    if (const auto *X = dyn_cast<WhileStmt>(S)) {
      Object R = mk("while", S);
      if (X->getConditionVariable()) R["cv"] = varDecl(X->getConditionVariable());
      R["c"] = expr(X->getCond());
      R["body"] = stmt(X->getBody());
      return R;
    }
    if (const auto *X = dyn_cast<DoStmt>(S)) {
      Object R = mk("do", S);
      R["c"] = expr(X->getCond());
      R["body"] = stmt(X->getBody());
      return R;
    }
    if (const auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      Object R = mk("rfor", S);
      R["range"] = stmt(X->getRangeStmt());
      R["begin"] = stmt(X->getBeginStmt());
      R["end"] = stmt(X->getEndStmt());
      R["c"] = expr(X->getCond());
      R["inc"] = expr(X->getInc());
      R["var"] = stmt(X->getLoopVarStmt());
      R["body"] = stmt(X->getBody());
      return R;
    }
    if (const auto *X = dyn_cast<ReturnStmt>(S)) {
      Object R = mk("return", S);
      R["e"] = X->getRetValue() ? expr(X->getRetValue()) : Value(nullptr);
      return R;
    }
    if (isa<BreakStmt>(S)) return mk("break", S);
    if (isa<ContinueStmt>(S)) return mk("continue", S);
    if (isa<NullStmt>(S)) return mk("nop", S);
    if (const auto *X = dyn_cast<SwitchStmt>(S)) {
      Object R = mk("switch", S);
      R["init"] = X->getInit() ? stmt(X->getInit()) : Value(nullptr);
      R["c"] = expr(X->getCond());
      R["body"] = stmt(X->getBody());
      R["ct"] = ty(X->getCond()->getType());
      return R;
    }
    if (const auto *X = dyn_cast<CaseStmt>(S)) {
      Object R = mk("case", S);
      Expr::EvalResult ER;
      if (X->getLHS()->EvaluateAsInt(ER, Ctx)) R["v"] = llvm::toString(ER.Val.getInt(), 10);
      R["s"] = stmt(X->getSubStmt());
      return R;
    }
    if (const auto *X = dyn_cast<DefaultStmt>(S)) {
      Object R = mk("default", S);
      R["s"] = stmt(X->getSubStmt());
      return R;
    }
    if (const auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (const auto *X = dyn_cast<LabelStmt>(S)) {
      Object R = mk("label", S);
      R["n"] = X->getName();
      R["s"] = stmt(X->getSubStmt());
      return R;
    }
    if (const auto *X = dyn_cast<GotoStmt>(S)) {
      Object R = mk("goto", S);
      R["n"] = X->getLabel()->getName().str();
      return R;
    }
    if (const auto *X = dyn_cast<CXXTryStmt>(S)) {
      Object R = mk("try", S);
      R["s"] = stmt(X->getTryBlock());
      Array A;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) A.push_back(stmt(X->getHandler(I)->getHandlerBlock()));
      R["hs"] = std::move(A);
      return R;
    }
    Object R = mk("otherstmt", S);
    R["cls"] = S->getStmtClassName();
    return R;
  }

  Value fnDef(const FunctionDecl *FD) {
    const FunctionDecl *Def = nullptr;
    if (!FD->hasBody(Def)) Def = FD;
    Value RV = fnRef(Def);
    Object &R = *RV.getAsObject();
    R["file"] = relFile(Def->getLocation());
    R["line"] = line(Def->getLocation());
    R["eline"] = line(Def->getEndLoc());
    if (Def->getFormalLinkage() == Linkage::Internal || Def->isInAnonymousNamespace()) R["internal"] = true;
    Array Ps;
    for (auto *P : Def->parameters()) {
      Object PO;
      PO["d"] = id(P);
      PO["n"] = P->getNameAsString();
      PO["t"] = ty(P->getType());
      Ps.push_back(std::move(PO));
    }
    R["params"] = std::move(Ps);
    if (const auto *C = dyn_cast<CXXConstructorDecl>(Def)) {
      Array Is;
      for (const auto *I : C->inits()) {
        Object IO;
        if (I->isAnyMemberInitializer()) {
          IO["f"] = I->getAnyMember()->getNameAsString();
          IO["ft"] = ty(I->getAnyMember()->getType());
        } else if (I->isBaseInitializer()) IO["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) IO["deleg"] = true;
        IO["e"] = expr(I->getInit());
        IO["l"] = line(I->getSourceLocation());
        if (I->isWritten()) IO["w"] = true;
        Is.push_back(std::move(IO));
      }
      R["inits"] = std::move(Is);
    }
    if (const auto *M = dyn_cast<CXXMethodDecl>(Def)) {
      Array Ov;
      for (auto *X : M->overridden_methods()) Ov.push_back(fnRef(X));
      R["ov"] = std::move(Ov);
    }
    if (!Def->isDependentContext() && Def->hasBody()) {
      // Names for anything the interpreter may need.
      R["body"] = stmt(Def->getBody());
    }
    return RV;
  }

  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->isThisDeclarationADefinition() || FD->isDependentContext()) return true;
    if (FD->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return true;
    if (!inRepo(FD->getLocation())) return true;
    if (!FD->hasBody()) return true;
    if (!Seen.insert(FD->getCanonicalDecl()).second) return true;
    bool IsLambdaOp = false;
    if (const auto *M = dyn_cast<CXXMethodDecl>(FD)) IsLambdaOp = M->getParent()->isLambda();
    if (IsLambdaOp) return true;  // exported inside the LambdaExpr
    Functions.push_back(fnDef(FD));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() || RD->isLambda()) return true;
    if (!inRepo(RD->getLocation())) return true;
    Object R;
    R["n"] = ty(Ctx.getRecordType(RD));
    R["file"] = relFile(RD->getLocation());
    R["line"] = line(RD->getLocation());
    Array Bs, Fs, Ms;
    for (auto &B : RD->bases()) Bs.push_back(ty(B.getType()));
    for (auto *F : RD->fields()) {
      Object FO;
      FO["n"] = F->getNameAsString();
      FO["t"] = ty(F->getType());
      FO["l"] = line(F->getLocation());
      FO["acc"] = (int)F->getAccess();
      if (F->isMutable()) FO["mutable"] = true;
      if (F->hasInClassInitializer() && F->getInClassInitializer()) FO["init"] = expr(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    for (auto *M : RD->methods()) {
      Value V = fnRef(M);
      (*V.getAsObject())["l"] = line(M->getLocation());
      (*V.getAsObject())["acc"] = (int)M->getAccess();
      if (M->isPureVirtual()) (*V.getAsObject())["pure"] = true;
      Array Ov;
      for (auto *X : M->overridden_methods()) Ov.push_back(fnRef(X));
      (*V.getAsObject())["ov"] = std::move(Ov);
      Ms.push_back(std::move(V));
    }
    R["bases"] = std::move(Bs);
    R["fields"] = std::move(Fs);
    R["methods"] = std::move(Ms);
    Records.push_back(std::move(R));
    return true;
  }

  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || !inRepo(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!V->isThisDeclarationADefinition()) return true;
    if (!Seen.insert(V->getCanonicalDecl()).second) return true;
    Object R;
    R["n"] = qn(V);
    R["d"] = id(V);
    R["t"] = ty(V->getType());
    R["file"] = relFile(V->getLocation());
    R["line"] = line(V->getLocation());
    R["const"] = V->getType().isConstQualified();
    if (V->isStaticLocal()) R["slocal"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) R["tls"] = true;
    if (V->getInit() && !V->getInit()->isValueDependent()) R["init"] = expr(V->getInit());
    Vars.push_back(std::move(R));
    return true;
  }

  CompilerInstance &CI;
  ASTContext &Ctx;
  SourceManager &SM;
  const Opts &O;
  PrintingPolicy PP;
  std::unique_ptr<ItaniumMangleContext> MC;
  std::map<const Decl *, int64_t> Ids;
  std::set<const Decl *> Seen;
};

// assert() vanishes under NDEBUG, so its uses are recorded at the macro level.
class AssertCB : public PPCallbacks {
 public:
  AssertCB(CompilerInstance &CI, const Opts &O, Array &A) : CI(CI), O(O), A(A) {}
  void MacroExpands(const Token &T, const MacroDefinition &, SourceRange R, const MacroArgs *) override {
    if (!T.getIdentifierInfo()) return;
    auto &SM = CI.getSourceManager();
    StringRef N = T.getIdentifierInfo()->getName();
    if (N != "assert") return;
    auto L = SM.getExpansionLoc(R.getBegin());
    std::string F = SM.getFilename(L).str();
    if (!F.empty() && F[0] != '/') F = O.Root + F;
    if (F.compare(0, O.Root.size(), O.Root) != 0) return;
    Object X;
    X["file"] = F.substr(O.Root.size());
    X["line"] = (int64_t)SM.getExpansionLineNumber(L);
    A.push_back(std::move(X));
  }
  CompilerInstance &CI;
  const Opts &O;
  Array &A;
};

class Consumer : public ASTConsumer {
 public:
  Consumer(CompilerInstance &CI, Opts O) : CI(CI), O(O) {
    CI.getPreprocessor().addPPCallbacks(std::make_unique<AssertCB>(CI, this->O, Asserts));
  }
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(CI, O);
    X.TraverseDecl(Ctx.getTranslationUnitDecl());
    Object R;
    R["functions"] = std::move(X.Functions);
    R["records"] = std::move(X.Records);
    R["vars"] = std::move(X.Vars);
    R["asserts"] = std::move(Asserts);
    Object Ts;
    for (auto &P : X.Types) Ts[P.first] = std::move(P.second);
    R["types"] = std::move(Ts);
    std::error_code EC;
    llvm::raw_fd_ostream OS(O.Out, EC);
    OS << Value(std::move(R));
  }
  CompilerInstance &CI;
  Opts O;
  Array Asserts;
};

class Action : public PluginASTAction {
 protected:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    return std::make_unique<Consumer>(CI, O);
  }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &Args) override {
    for (auto &A : Args) {
      if (A.rfind("out=", 0) == 0) O.Out = A.substr(4);
      if (A.rfind("root=", 0) == 0) O.Root = A.substr(5);
      if (A.rfind("exclude=", 0) == 0) O.Exclude = A.substr(8);
    }
    return true;
  }
  Opts O;
};

}  // namespace

static FrontendPluginRegistry::Add<Action> X("astx", "export resolved AST");
