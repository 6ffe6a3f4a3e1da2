// Fact extractor: dumps, for every function defined in a repository file that
// one translation unit sees, the resolved (type-checked) AST of its body and
// its clang CFG, plus record/enum/global-variable facts, as JSON lines.
//
// usage: extract --root /repo [--root DIR]... -o OUT FILE -- <clang flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace {

// 64-bit unsigned values above INT64_MAX come out as their signed bit pattern.
int64_t apInt(const llvm::APSInt &V) {
  return (int64_t)V.extOrTrunc(64).getRawData()[0];
}

class Dumper {
  ASTContext &Ctx;
  SourceManager &SM;
  llvm::raw_ostream &OS;
  PrintingPolicy PP;
  std::unique_ptr<ItaniumMangleContext> MC;
  std::map<const Type *, std::string> TypeCache;
  std::set<std::string> SeenFns;

public:
  Dumper(ASTContext &C, llvm::raw_ostream &OS)
      : Ctx(C), SM(C.getSourceManager()), OS(OS), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.TerseOutput = true;
    MC.reset(ItaniumMangleContext::create(C, C.getDiagnostics()));
  }

  std::string filePath(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L, false);
    if (P.isInvalid())
      return "";
    llvm::SmallString<256> S(P.getFilename());
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      StringRef R = FE->getFileEntry().tryGetRealPathName();
      if (!R.empty())
        S = R;
    }
    return std::string(S);
  }

  bool inRepo(SourceLocation L) {
    if (L.isInvalid())
      return false;
    std::string F = filePath(L);
    for (auto &R : Roots)
      if (StringRef(F).starts_with(R))
        return true;
    return false;
  }

  unsigned line(SourceLocation L) {
    return SM.getExpansionLineNumber(L);
  }
  unsigned col(SourceLocation L) { return SM.getExpansionColumnNumber(L); }

  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream O(S);
    PrintingPolicy P2(Ctx.getLangOpts());
    P2.SuppressUnwrittenScope = false;
    D->printQualifiedName(O, P2);
    return S;
  }

  std::string tstr(QualType T) {
    if (T.isNull())
      return "";
    return T.getCanonicalType().getAsString(PP);
  }

  std::string fnId(const FunctionDecl *FD) {
    std::string S;
    llvm::raw_string_ostream O(S);
    if (FD->isDependentContext() || FD->getType()->isDependentType()) {
      llvm::SmallString<128> Buf;
      index::generateUSRForDecl(FD, Buf);
      return std::string(Buf);
    }
    if (auto *C = dyn_cast<CXXConstructorDecl>(FD))
      MC->mangleName(GlobalDecl(C, Ctor_Complete), O);
    else if (auto *D = dyn_cast<CXXDestructorDecl>(FD))
      MC->mangleName(GlobalDecl(D, Dtor_Complete), O);
    else if (MC->shouldMangleDeclName(FD))
      MC->mangleName(GlobalDecl(FD), O);
    else
      O << FD->getNameAsString();
    O.flush();
    // Internal linkage: make unique per file.
    if (!FD->isExternallyVisible()) {
      S += "@" + filePath(FD->getLocation());
      if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
        if (MD->getParent()->isLambda())
          S += ":" + std::to_string(line(MD->getParent()->getLocation())) +
               ":" + std::to_string(col(MD->getParent()->getLocation()));
    }
    return S;
  }

  // Describe a type briefly: canonical string plus shape flags.
  json::Object typeObj(QualType T) {
    json::Object O;
    QualType C = T.getCanonicalType();
    O["s"] = C.getAsString(PP);
    if (C->isReferenceType())
      O["ref"] = C->isRValueReferenceType() ? 2 : 1;
    QualType P = C.getNonReferenceType();
    if (P.isConstQualified())
      O["const"] = true;
    if (P->isPointerType()) {
      O["ptr"] = true;
      QualType PT = P->getPointeeType();
      if (PT.isConstQualified())
        O["pconst"] = true;
      if (auto *R = PT->getAsCXXRecordDecl())
        O["rec"] = qname(R);
    } else if (auto *R = P->getAsCXXRecordDecl()) {
      O["rec"] = qname(R);
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        json::Array A;
        for (auto &TA : S->getTemplateArgs().asArray())
          if (TA.getKind() == TemplateArgument::Type) {
            json::Object AO;
            AO["s"] = tstr(TA.getAsType());
            if (auto *AR = TA.getAsType()->getAsCXXRecordDecl())
              AO["rec"] = qname(AR);
            A.push_back(std::move(AO));
          }
        O["args"] = std::move(A);
      }
      if (R->isLambda())
        O["lambda"] = true;
    } else if (P->isEnumeralType()) {
      O["enum"] = qname(P->castAs<EnumType>()->getDecl());
    } else if (P->isBooleanType())
      O["bool"] = true;
    else if (P->isIntegerType() && !P->isDependentType()) {
      O["int"] = (int64_t)Ctx.getTypeSize(P);
      O["sgn"] = P->isSignedIntegerType();
      if (P->isAnyCharacterType())
        O["chr"] = true;
    } else if (P->isFloatingType())
      O["flt"] = (int64_t)Ctx.getTypeSize(P);
    return O;
  }

  struct FnCtx {
    std::map<const Stmt *, int> Ids;
    std::vector<json::Value> Nodes;
    std::map<const Decl *, int> Decls;
    std::vector<json::Value> DeclTab;
    std::map<std::string, int> Types;
    std::vector<json::Value> TypeTab;
    const FunctionDecl *FD = nullptr;
  };

  int typeId(FnCtx &F, QualType T) {
    if (T.isNull())
      return -1;
    std::string Key = tstr(T);
    auto It = F.Types.find(Key);
    if (It != F.Types.end())
      return It->second;
    int Id = F.TypeTab.size();
    F.Types[Key] = Id;
    F.TypeTab.push_back(typeObj(T));
    return Id;
  }

  int declId(FnCtx &F, const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto It = F.Decls.find(D);
    if (It != F.Decls.end())
      return It->second;
    int Id = F.DeclTab.size();
    F.Decls[D] = Id;
    F.DeclTab.push_back(nullptr);
    json::Object O;
    O["k"] = D->getDeclKindName();
    O["n"] = D->getNameAsString();
    O["t"] = typeId(F, D->getType());
    if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      O["q"] = qname(FD);
      O["fn"] = fnId(FD);
    } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      O["q"] = qname(EC);
      O["v"] = apInt(EC->getInitVal());
    } else if (auto *VD = dyn_cast<VarDecl>(D)) {
      if (VD->hasGlobalStorage()) {
        O["q"] = qname(VD);
        O["glob"] = true;
        if (VD->isStaticLocal())
          O["slocal"] = true;
      }
      // owner: distinguishes captured variables from locals
      if (auto *OF = dyn_cast_or_null<FunctionDecl>(
              VD->getDeclContext()->getNonClosureAncestor()))
        (void)OF;
      O["loc"] = std::to_string(line(VD->getLocation())) + ":" +
                 std::to_string(col(VD->getLocation()));
      if (VD->isImplicit())
        O["impl"] = true;
    } else if (auto *FL = dyn_cast<FieldDecl>(D)) {
      O["q"] = qname(FL);
      O["cls"] = qname(FL->getParent());
    } else if (auto *BD = dyn_cast<BindingDecl>(D)) {
      O["loc"] = std::to_string(line(BD->getLocation())) + ":" +
                 std::to_string(col(BD->getLocation()));
      if (auto *E = BD->getBinding())
        O["bind"] = node(F, E);
      if (auto *DD = dyn_cast_or_null<ValueDecl>(BD->getDecomposedDecl()))
        O["dd"] = declId(F, DD);
      if (auto *DD = dyn_cast_or_null<DecompositionDecl>(BD->getDecomposedDecl())) {
        int I = 0;
        for (auto *B : DD->bindings()) {
          if (B == BD)
            O["bi"] = I;
          I++;
        }
      }
      if (auto *HV = BD->getHoldingVar())
        O["hv"] = declId(F, HV);
    }
    F.DeclTab[Id] = std::move(O);
    return Id;
  }

  void calleeInfo(FnCtx &F, json::Object &O, const FunctionDecl *FD) {
    if (!FD)
      return;
    O["fn"] = fnId(FD);
    O["q"] = qname(FD);
    O["fnm"] = FD->getNameAsString();
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = qname(MD->getParent());
      if (MD->isVirtual())
        O["virt"] = true;
      if (MD->isConst())
        O["mconst"] = true;
      if (MD->isStatic())
        O["mstatic"] = true;
    }
    if (FD->isNoReturn())
      O["noret"] = true;
    if (const auto *FPT = FD->getType()->getAs<FunctionProtoType>())
      if (FPT->getExceptionSpecType() != EST_Unevaluated &&
          FPT->getExceptionSpecType() != EST_Uninstantiated &&
          FPT->getExceptionSpecType() != EST_Unparsed &&
          FPT->isNothrow())
        O["nothrow"] = true;
    if (FD->isDefaulted())
      O["dflt"] = true;
    json::Array PT;
    for (auto *P : FD->parameters())
      PT.push_back(typeId(F, P->getType()));
    O["pt"] = std::move(PT);
    if (FD->isVariadic())
      O["variadic"] = true;
    O["inrepo"] = inRepo(FD->getLocation());
  }

  int node(FnCtx &F, const Stmt *S) {
    if (!S)
      return -1;
    auto It = F.Ids.find(S);
    if (It != F.Ids.end())
      return It->second;
    int Id = F.Nodes.size();
    F.Ids[S] = Id;
    F.Nodes.push_back(nullptr);
    json::Object O;
    O["k"] = S->getStmtClassName();
    SourceLocation L = S->getBeginLoc();
    if (const auto *BO = dyn_cast<BinaryOperator>(S))
      L = BO->getOperatorLoc();
    if (L.isValid()) {
      O["l"] = (int64_t)line(L);
      O["c"] = (int64_t)col(L);
      if (L.isMacroID()) {
        StringRef MN = Lexer::getImmediateMacroName(L, SM, Ctx.getLangOpts());
        O["mac"] = MN.str();
      }
    }
    bool Generic = true;
    json::Array Ch;
    if (const auto *E = dyn_cast<Expr>(S)) {
      O["t"] = typeId(F, E->getType());
      if (E->isLValue())
        O["lv"] = true;
      else if (E->isXValue())
        O["xv"] = true;
      if (!E->isValueDependent() && !E->isTypeDependent() &&
          E->getType()->isIntegralOrEnumerationType()) {
        if (isa<IntegerLiteral, CharacterLiteral, CXXBoolLiteralExpr,
                DeclRefExpr, UnaryOperator, BinaryOperator, CastExpr,
                ConstantExpr, UnaryExprOrTypeTraitExpr, ParenExpr,
                CXXScalarValueInitExpr, ImplicitValueInitExpr,
                SubstNonTypeTemplateParmExpr>(E)) {
          Expr::EvalResult R;
          if (!E->HasSideEffects(Ctx) && E->EvaluateAsInt(R, Ctx) &&
              !R.HasSideEffects)
            O["cv"] = apInt(R.Val.getInt());
        }
      }
    }
    if (const auto *D = dyn_cast<DeclRefExpr>(S)) {
      O["d"] = declId(F, D->getDecl());
      if (D->refersToEnclosingVariableOrCapture())
        O["cap"] = true;
      if (auto *BD = dyn_cast<BindingDecl>(D->getDecl()))
        (void)BD;
    } else if (const auto *M = dyn_cast<MemberExpr>(S)) {
      O["d"] = declId(F, M->getMemberDecl());
      O["n"] = M->getMemberDecl()->getNameAsString();
      if (M->isArrow())
        O["arrow"] = true;
    } else if (const auto *C = dyn_cast<CallExpr>(S)) {
      calleeInfo(F, O, C->getDirectCallee());
      if (const auto *OC = dyn_cast<CXXOperatorCallExpr>(S))
        O["op"] = getOperatorSpelling(OC->getOperator());
    } else if (const auto *C = dyn_cast<CXXConstructExpr>(S)) {
      calleeInfo(F, O, C->getConstructor());
      if (C->isElidable())
        O["elide"] = true;
      if (C->getConstructor()->isCopyOrMoveConstructor())
        O["copy"] = C->getConstructor()->isMoveConstructor() ? 2 : 1;
      if (C->isListInitialization())
        O["list"] = true;
    } else if (const auto *C = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
      calleeInfo(F, O, C->getConstructor());
    } else if (const auto *B = dyn_cast<BinaryOperator>(S)) {
      O["op"] = B->getOpcodeStr().str();
    } else if (const auto *U = dyn_cast<UnaryOperator>(S)) {
      O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      O["post"] = U->isPostfix();
    } else if (const auto *RB = dyn_cast<CXXRewrittenBinaryOperator>(S)) {
      O["op"] = RB->getOpcodeStr().str();
      Ch.push_back(node(F, RB->getSemanticForm()));
      Generic = false;
    } else if (const auto *Cast = dyn_cast<CastExpr>(S)) {
      O["ck"] = Cast->getCastKindName();
      if (isa<ExplicitCastExpr>(S))
        O["expl"] = true;
      if (auto *CF = dyn_cast_or_null<FunctionDecl>(
              const_cast<CastExpr *>(Cast)->getConversionFunction())) {
        O["cfn"] = fnId(CF);
      }
    } else if (const auto *I = dyn_cast<IntegerLiteral>(S)) {
      (void)I;
    } else if (const auto *SL = dyn_cast<StringLiteral>(S)) {
      if (SL->getCharByteWidth() == 1) {
        std::string Fixed = json::fixUTF8(SL->getString());
        O["v"] = Fixed;
        O["len"] = (int64_t)SL->getLength();
      }
    } else if (const auto *LE = dyn_cast<LambdaExpr>(S)) {
      O["fn"] = fnId(LE->getCallOperator());
      json::Array Caps;
      auto InitIt = LE->capture_init_begin();
      for (const auto &Cp : LE->captures()) {
        json::Object CO;
        CO["by"] = Cp.capturesThis()
                       ? (Cp.getCaptureKind() == LCK_StarThis ? "*this" : "this")
                       : (Cp.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
        if (Cp.capturesVariable())
          CO["d"] = declId(F, Cp.getCapturedVar());
        if (InitIt != LE->capture_init_end()) {
          if (*InitIt)
            CO["init"] = node(F, *InitIt);
          ++InitIt;
        }
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      Generic = false;
      for (auto It2 = LE->capture_init_begin(); It2 != LE->capture_init_end();
           ++It2)
        if (*It2)
          Ch.push_back(node(F, *It2));
    } else if (const auto *DS = dyn_cast<DeclStmt>(S)) {
      json::Array Vars;
      for (const auto *D : DS->decls())
        if (const auto *VD = dyn_cast<VarDecl>(D)) {
          json::Object VO;
          VO["d"] = declId(F, VD);
          if (VD->hasInit())
            VO["init"] = node(F, VD->getInit());
          if (VD->isStaticLocal())
            VO["static"] = true;
          if (const auto *DD = dyn_cast<DecompositionDecl>(VD)) {
            json::Array BA;
            for (auto *BD : DD->bindings()) {
              BA.push_back(declId(F, BD));
            }
            VO["binds"] = std::move(BA);
          }
          Vars.push_back(std::move(VO));
        }
      O["vars"] = std::move(Vars);
      Generic = false;
      for (const auto *D : DS->decls())
        if (const auto *VD = dyn_cast<VarDecl>(D))
          if (VD->hasInit())
            Ch.push_back(node(F, VD->getInit()));
    } else if (const auto *DA = dyn_cast<CXXDefaultArgExpr>(S)) {
      Ch.push_back(node(F, DA->getExpr()));
      Generic = false;
    } else if (const auto *DI = dyn_cast<CXXDefaultInitExpr>(S)) {
      Ch.push_back(node(F, DI->getExpr()));
      Generic = false;
    } else if (const auto *IL = dyn_cast<InitListExpr>(S)) {
      const InitListExpr *Sem =
          IL->isSemanticForm() ? IL : IL->getSemanticForm();
      if (!Sem)
        Sem = IL;
      for (unsigned I = 0; I < Sem->getNumInits(); ++I)
        Ch.push_back(node(F, Sem->getInit(I)));
      if (auto *R = Sem->getType()->getAsCXXRecordDecl()) {
        json::Array FA;
        unsigned NB = R->getNumBases();
        for (unsigned I = 0; I < NB; ++I)
          FA.push_back(nullptr);
        for (auto *Fd : R->fields())
          FA.push_back(declId(F, Fd));
        O["fields"] = std::move(FA);
      }
      Generic = false;
    } else if (const auto *NE = dyn_cast<CXXNewExpr>(S)) {
      (void)NE;
    } else if (const auto *DE = dyn_cast<CXXDeleteExpr>(S)) {
      (void)DE;
    } else if (const auto *MT = dyn_cast<MaterializeTemporaryExpr>(S)) {
      if (MT->getExtendingDecl())
        O["ext"] = declId(F, MT->getExtendingDecl());
    } else if (const auto *RF = dyn_cast<CXXForRangeStmt>(S)) {
      O["var"] = declId(F, RF->getLoopVariable());
      O["range"] = node(F, RF->getRangeInit());
      O["body"] = node(F, RF->getBody());
    } else if (const auto *IS = dyn_cast<IfStmt>(S)) {
      O["cond"] = node(F, IS->getCond());
      O["then"] = node(F, IS->getThen());
      O["else"] = node(F, IS->getElse());
    } else if (const auto *WS = dyn_cast<WhileStmt>(S)) {
      O["cond"] = node(F, WS->getCond());
      O["body"] = node(F, WS->getBody());
    } else if (const auto *FS = dyn_cast<ForStmt>(S)) {
      O["init"] = node(F, FS->getInit());
      O["cond"] = node(F, FS->getCond());
      O["inc"] = node(F, FS->getInc());
      O["body"] = node(F, FS->getBody());
    } else if (const auto *SS = dyn_cast<SwitchStmt>(S)) {
      O["cond"] = node(F, SS->getCond());
      O["body"] = node(F, SS->getBody());
    } else if (const auto *CS = dyn_cast<CaseStmt>(S)) {
      Expr::EvalResult R;
      if (CS->getLHS() && CS->getLHS()->EvaluateAsInt(R, Ctx))
        O["cv"] = apInt(R.Val.getInt());
      if (CS->getRHS() && CS->getRHS()->EvaluateAsInt(R, Ctx))
        O["cv2"] = apInt(R.Val.getInt());
      O["lhs"] = node(F, CS->getLHS());
      O["sub"] = node(F, CS->getSubStmt());
    } else if (const auto *CT = dyn_cast<CXXCatchStmt>(S)) {
      if (CT->getExceptionDecl()) {
        O["d"] = declId(F, CT->getExceptionDecl());
        O["ct"] = typeId(F, CT->getCaughtType());
        // classes handled
        if (auto *R = CT->getCaughtType().getNonReferenceType()
                          ->getAsCXXRecordDecl())
          O["crec"] = qname(R);
      } else
        O["all"] = true;
    } else if (const auto *TE = dyn_cast<CXXThrowExpr>(S)) {
      if (TE->getSubExpr()) {
        if (auto *R = TE->getSubExpr()->getType()->getAsCXXRecordDecl()) {
          O["trec"] = qname(R);
          json::Array B;
          publicBases(R, B);
          O["tbases"] = std::move(B);
        }
      }
    } else if (const auto *UE = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      O["tk"] = UE->getKind() == UETT_SizeOf ? "sizeof" : "other";
    } else if (const auto *OV = dyn_cast<OpaqueValueExpr>(S)) {
      Ch.push_back(node(F, OV->getSourceExpr()));
      Generic = false;
    } else if (const auto *PO = dyn_cast<PseudoObjectExpr>(S)) {
      (void)PO;
    }
    if (Generic)
      for (const Stmt *C : S->children())
        Ch.push_back(node(F, C));
    O["ch"] = std::move(Ch);
    F.Nodes[Id] = std::move(O);
    return Id;
  }

  // all public, unambiguous-enough base classes (transitively)
  void publicBases(const CXXRecordDecl *R, json::Array &Out) {
    if (!R->hasDefinition())
      return;
    R = R->getDefinition();
    for (auto &B : R->bases()) {
      if (B.getAccessSpecifier() != AS_public)
        continue;
      if (auto *BR = B.getType()->getAsCXXRecordDecl()) {
        Out.push_back(qname(BR));
        publicBases(BR, Out);
      }
    }
  }

  json::Value cfgJson(FnCtx &F, const Decl *D, Stmt *Body) {
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = false;
    BO.AddInitializers = true;
    BO.AddEHEdges = false;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.PruneTriviallyFalseEdges = true;
    std::unique_ptr<CFG> G = CFG::buildCFG(D, Body, &Ctx, BO);
    if (!G)
      return nullptr;
    json::Array Blocks;
    for (const CFGBlock *B : *G) {
      json::Object O;
      O["id"] = (int64_t)B->getBlockID();
      json::Array El;
      for (const CFGElement &E : *B) {
        json::Array X;
        if (auto CS = E.getAs<CFGStmt>()) {
          El.push_back(node(F, CS->getStmt()));
          continue;
        }
        if (auto CI = E.getAs<CFGInitializer>()) {
          const CXXCtorInitializer *I = CI->getInitializer();
          X.push_back("init");
          if (I->isAnyMemberInitializer())
            X.push_back(declId(F, I->getAnyMember()));
          else
            X.push_back(I->getBaseClass()
                            ? tstr(QualType(I->getBaseClass(), 0))
                            : std::string("?"));
          X.push_back(node(F, I->getInit()));
        } else if (auto CD = E.getAs<CFGAutomaticObjDtor>()) {
          X.push_back("dtor");
          X.push_back(declId(F, CD->getVarDecl()));
          if (auto *DD = CD->getDestructorDecl(Ctx))
            X.push_back(fnId(DD));
          else
            X.push_back("");
        } else if (E.getAs<CFGMemberDtor>()) {
          X.push_back("mdtor");
          X.push_back(declId(F, E.castAs<CFGMemberDtor>().getFieldDecl()));
        } else if (E.getAs<CFGBaseDtor>()) {
          X.push_back("bdtor");
        } else if (E.getAs<CFGDeleteDtor>()) {
          X.push_back("ddtor");
        } else {
          X.push_back("other");
        }
        El.push_back(std::move(X));
      }
      O["e"] = std::move(El);
      if (const Stmt *T = B->getTerminatorStmt()) {
        O["t"] = node(F, T);
        if (const Stmt *C = B->getTerminatorCondition())
          O["tc"] = node(F, C);
        if (const Expr *LC = B->getLastCondition())
          O["lc"] = node(F, LC);
      }
      if (const Stmt *L = B->getLabel())
        O["lab"] = node(F, L);
      json::Array Su;
      for (auto It = B->succ_begin(); It != B->succ_end(); ++It) {
        if (const CFGBlock *R = It->getReachableBlock())
          Su.push_back((int64_t)R->getBlockID());
        else
          Su.push_back(-1);
      }
      O["s"] = std::move(Su);
      if (B->hasNoReturnElement())
        O["nr"] = true;
      if (B->getLoopTarget())
        O["lt"] = node(F, B->getLoopTarget());
      Blocks.push_back(std::move(O));
    }
    json::Object R;
    R["blocks"] = std::move(Blocks);
    R["entry"] = (int64_t)G->getEntry().getBlockID();
    R["exit"] = (int64_t)G->getExit().getBlockID();
    return R;
  }

  void dumpFunction(const FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody() || !FD->getBody())
      return;
    if (FD->isDependentContext() || FD->isTemplated())
      return;
    if (!inRepo(FD->getLocation()))
      return;
    std::string Id = fnId(FD);
    if (!SeenFns.insert(Id).second)
      return;
    FnCtx F;
    F.FD = FD;
    json::Object O;
    O["kind"] = "fn";
    O["id"] = Id;
    O["q"] = qname(FD);
    O["n"] = FD->getNameAsString();
    O["file"] = filePath(FD->getLocation());
    O["l"] = (int64_t)line(FD->getLocation());
    O["el"] = (int64_t)line(FD->getEndLoc());
    O["ext"] = FD->isExternallyVisible();
    if (FD->getTemplateInstantiationPattern())
      O["inst"] = true;
    if (FD->isDefaulted())
      O["dflt"] = true;
    json::Array Ps;
    for (auto *P : FD->parameters())
      Ps.push_back(declId(F, P));
    O["params"] = std::move(Ps);
    O["ret"] = typeId(F, FD->getReturnType());
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = qname(MD->getParent());
      O["acc"] = getAccessSpelling(MD->getAccess()).str();
      if (MD->isVirtual())
        O["virt"] = true;
      if (MD->isStatic())
        O["static"] = true;
      if (MD->isConst())
        O["mconst"] = true;
      json::Array Ov;
      for (auto *OM : MD->overridden_methods())
        Ov.push_back(fnId(OM));
      O["over"] = std::move(Ov);
      if (MD->getParent()->isLambda()) {
        O["lambda"] = true;
        if (auto *PF = dyn_cast_or_null<FunctionDecl>(
                MD->getParent()->getParentFunctionOrMethod()))
          if (!PF->isDependentContext())
            O["parent"] = fnId(PF);
      }
    }
    if (auto *LF = dyn_cast_or_null<FunctionDecl>(
            FD->getParentFunctionOrMethod()))
      if (!LF->isDependentContext() && !O.getString("parent"))
        O["parent"] = fnId(LF);
    if (isa<CXXConstructorDecl>(FD)) {
      O["ctor"] = true;
      json::Array In;
      for (auto *I : cast<CXXConstructorDecl>(FD)->inits()) {
        json::Object IO;
        if (I->isAnyMemberInitializer())
          IO["field"] = declId(F, I->getAnyMember());
        else if (I->getBaseClass())
          IO["base"] = tstr(QualType(I->getBaseClass(), 0));
        IO["init"] = node(F, I->getInit());
        IO["written"] = I->isWritten();
        In.push_back(std::move(IO));
      }
      O["inits"] = std::move(In);
    }
    if (isa<CXXDestructorDecl>(FD))
      O["dtor"] = true;
    O["body"] = node(F, FD->getBody());
    O["cfg"] = cfgJson(F, FD, FD->getBody());
    O["nodes"] = json::Array();
    json::Array NA;
    for (auto &N : F.Nodes)
      NA.push_back(std::move(N));
    O["nodes"] = std::move(NA);
    json::Array DA;
    for (auto &N : F.DeclTab)
      DA.push_back(std::move(N));
    O["decls"] = std::move(DA);
    json::Array TA;
    for (auto &N : F.TypeTab)
      TA.push_back(std::move(N));
    O["types"] = std::move(TA);
    OS << json::Value(std::move(O)) << "\n";
  }

  void dumpGlobalVar(const VarDecl *VD) {
    if (!VD->hasGlobalStorage() || !inRepo(VD->getLocation()))
      return;
    if (VD->getDeclContext()->isDependentContext() ||
        VD->getType()->isDependentType())
      return;
    FnCtx F;
    json::Object O;
    O["kind"] = "var";
    O["q"] = qname(VD);
    O["n"] = VD->getNameAsString();
    O["file"] = filePath(VD->getLocation());
    O["l"] = (int64_t)line(VD->getLocation());
    O["t"] = typeId(F, VD->getType());
    O["init"] = VD->hasInit() ? node(F, VD->getInit()) : -1;
    json::Array NA, DA, TA;
    for (auto &N : F.Nodes)
      NA.push_back(std::move(N));
    for (auto &N : F.DeclTab)
      DA.push_back(std::move(N));
    for (auto &N : F.TypeTab)
      TA.push_back(std::move(N));
    O["nodes"] = std::move(NA);
    O["decls"] = std::move(DA);
    O["types"] = std::move(TA);
    OS << json::Value(std::move(O)) << "\n";
  }

  void dumpRecord(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() ||
        R->isLambda() || R->isInjectedClassName())
      return;
    if (!inRepo(R->getLocation()))
      return;
    json::Object O;
    O["kind"] = "rec";
    O["q"] = qname(R);
    O["ts"] = tstr(Ctx.getRecordType(R));
    O["file"] = filePath(R->getLocation());
    O["l"] = (int64_t)line(R->getLocation());
    json::Array Fs;
    for (auto *Fd : R->fields()) {
      json::Object FO;
      FO["n"] = Fd->getNameAsString();
      FO["t"] = json::Value(typeObj(Fd->getType()));
      FO["l"] = (int64_t)line(Fd->getLocation());
      FO["acc"] = getAccessSpelling(Fd->getAccess()).str();
      if (Fd->hasInClassInitializer())
        FO["dinit"] = true;
      if (Fd->isMutable())
        FO["mut"] = true;
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    json::Array Bs;
    for (auto &B : R->bases()) {
      json::Object BO;
      BO["s"] = tstr(B.getType());
      BO["acc"] = getAccessSpelling(B.getAccessSpecifier()).str();
      if (auto *BR = B.getType()->getAsCXXRecordDecl())
        BO["q"] = qname(BR);
      Bs.push_back(std::move(BO));
    }
    O["bases"] = std::move(Bs);
    json::Array PB;
    publicBases(R, PB);
    O["pubbases"] = std::move(PB);
    json::Array Ms;
    for (auto *M : R->methods()) {
      if (M->isImplicit())
        continue;
      json::Object MO;
      MO["n"] = M->getNameAsString();
      MO["id"] = fnId(M);
      MO["acc"] = getAccessSpelling(M->getAccess()).str();
      if (M->isVirtual())
        MO["virt"] = true;
      if (M->isPureVirtual())
        MO["pure"] = true;
      if (M->isDeleted())
        MO["del"] = true;
      if (M->isConst())
        MO["mconst"] = true;
      MO["ret"] = json::Value(typeObj(M->getReturnType()));
      Ms.push_back(std::move(MO));
    }
    O["methods"] = std::move(Ms);
    O["abstract"] = R->isAbstract();
    OS << json::Value(std::move(O)) << "\n";
  }

  void dumpEnum(const EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRepo(E->getLocation()))
      return;
    json::Object O;
    O["kind"] = "enum";
    O["q"] = qname(E);
    O["file"] = filePath(E->getLocation());
    O["l"] = (int64_t)line(E->getLocation());
    json::Array A;
    for (auto *C : E->enumerators()) {
      json::Object CO;
      CO["n"] = C->getNameAsString();
      CO["q"] = qname(C);
      CO["v"] = apInt(C->getInitVal());
      A.push_back(std::move(CO));
    }
    O["vals"] = std::move(A);
    OS << json::Value(std::move(O)) << "\n";
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
  Dumper &D;

public:
  explicit Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    D.dumpFunction(FD);
    return true;
  }
  bool VisitVarDecl(VarDecl *VD) {
    if (!isa<ParmVarDecl>(VD))
      D.dumpGlobalVar(VD);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    D.dumpRecord(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    D.dumpEnum(E);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *LE) {
    if (auto *C = LE->getCallOperator())
      D.dumpFunction(C);
    return true;
  }
};

class Consumer : public ASTConsumer {
  std::string Main;

public:
  explicit Consumer(std::string M) : Main(std::move(M)) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    if (EC) {
      llvm::errs() << "cannot write " << OutPath << "\n";
      exit(3);
    }
    Dumper D(Ctx, OS);
    json::Object H;
    H["kind"] = "tu";
    H["main"] = Main;
    H["errors"] =
        (int64_t)Ctx.getDiagnostics().getClient()->getNumErrors();
    OS << json::Value(std::move(H)) << "\n";
    Visitor V(D);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI,
                                                 StringRef InFile) override {
    return std::make_unique<Consumer>(InFile.str());
  }
};
} // namespace

int main(int argc, const char **argv) {
  std::string File;
  std::vector<std::string> Flags;
  for (int I = 1; I < argc; ++I) {
    std::string A = argv[I];
    if (A == "--root")
      Roots.push_back(argv[++I]);
    else if (A == "-o")
      OutPath = argv[++I];
    else if (A == "--") {
      for (++I; I < argc; ++I)
        Flags.push_back(argv[I]);
    } else
      File = A;
  }
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  Tool.clearArgumentsAdjusters();
  Tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  int RC = Tool.run(tooling::newFrontendActionFactory<Action>().get());
  return RC;
}
