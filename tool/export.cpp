// export.cpp: dump the resolved program (AST + CFG) of one translation unit as JSON.
//
//   rxexport OUT.json FILEREGEX -- <clang args> file.cpp
//
// Only declarations whose (expansion) file matches FILEREGEX are exported.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;

static std::string outName, fileRegex;

static std::string sanitize(llvm::StringRef s) {
  // bytes as latin-1 code points in UTF-8
  std::string r;
  for (unsigned char c : s) {
    if (c < 0x80) r += c;
    else { r += (char)(0xC0 | (c >> 6)); r += (char)(0x80 | (c & 0x3F)); }
  }
  return r;
}

class Exporter : public RecursiveASTVisitor<Exporter> {
public:
  ASTContext &C; SourceManager &SM; PrintingPolicy PP; llvm::raw_fd_ostream &os; llvm::json::OStream J;
  llvm::Regex re;
  std::vector<FunctionDecl*> funcs; std::vector<CXXRecordDecl*> recs; std::vector<VarDecl*> globs; std::vector<EnumDecl*> enums;
  std::set<const Decl*> seen;
  Exporter(ASTContext &C, llvm::raw_fd_ostream &os) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), os(os), J(os), re(fileRegex) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true; PP.TerseOutput = true; PP.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  SourceLocation locOf(const Decl *D) { if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D)) if (!S->isExplicitSpecialization()) return S->getSpecializedTemplate()->getLocation(); return D->getLocation(); }
  bool wanted(const Decl *D) { auto f = fileOf(locOf(D)); return !f.empty() && re.match(f); }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || !F->doesThisDeclarationHaveABody() || !wanted(F)) return true;
    if (F->isDefaulted() && !F->isUserProvided()) return true;
    if (!seen.insert(F).second) return true;
    funcs.push_back(F); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isDependentContext() || !R->isThisDeclarationADefinition() || !wanted(R)) return true;
    if (!seen.insert(R).second) return true;
    recs.push_back(R); return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->getDeclContext()->isDependentContext() || !wanted(V)) return true;
    if (V->getType()->isDependentType()) return true;
    if (!seen.insert(V).second) return true;
    globs.push_back(V); return true;
  }
  bool VisitEnumDecl(EnumDecl *E) { if (!E->isDependentContext() && wanted(E) && seen.insert(E).second) enums.push_back(E); return true; }

  std::string ty(QualType T) { return T.getCanonicalType().getAsString(PP); }
  std::string qn(const NamedDecl *D) { if (auto *R = dyn_cast<CXXRecordDecl>(D)) return ty(C.getTypeDeclType(R)); std::string s; llvm::raw_string_ostream o(s); D->printQualifiedName(o, PP); return s; }
  std::string fid(const FunctionDecl *F) {
    std::string s = qn(F);
    if (auto *A = F->getTemplateSpecializationArgs()) {
      s += "<";
      for (unsigned i = 0; i < A->size(); ++i) { if (i) s += ","; std::string t; llvm::raw_string_ostream o(t); A->get(i).print(PP, o, true); s += o.str(); }
      s += ">";
    }
    s += "(";
    for (unsigned i = 0; i < F->getNumParams(); ++i) { if (i) s += ", "; s += ty(F->getParamDecl(i)->getType()); }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += " const";
    return s;
  }
  std::map<const Decl*, int> locals; // per function
  std::string vid(const ValueDecl *D) {
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (!V->hasGlobalStorage() || V->isStaticLocal()) {
        auto *K = V->getCanonicalDecl();
        auto it = locals.find(K);
        int n = it == locals.end() ? (locals[K] = (int)locals.size()) : it->second;
        return "$" + std::to_string(n) + ":" + V->getNameAsString();
      }
      return qn(V);
    }
    if (auto *F = dyn_cast<FunctionDecl>(D)) return fid(F);
    return qn(D);
  }

  // node table
  std::map<const Stmt*, int> ids; std::vector<const Stmt*> order;
  int id(const Stmt *S) {
    if (!S) return -1;
    auto it = ids.find(S); if (it != ids.end()) return it->second;
    int n = order.size(); ids[S] = n; order.push_back(S);
    return n;
  }
  std::vector<const Stmt*> kids(const Stmt *S) {
    std::vector<const Stmt*> v;
    if (auto *D = dyn_cast<CXXDefaultArgExpr>(S)) { v.push_back(D->getExpr()); return v; }
    if (auto *D = dyn_cast<CXXDefaultInitExpr>(S)) { v.push_back(D->getExpr()); return v; }
    if (auto *I = dyn_cast<InitListExpr>(S)) { for (unsigned i = 0; i < I->getNumInits(); ++i) v.push_back(I->getInit(i)); return v; }
    if (isa<LambdaExpr>(S)) return v;
    for (const Stmt *K : S->children()) v.push_back(K);
    return v;
  }
  void val(const APValue &V) {
    switch (V.getKind()) {
      case APValue::Int: { llvm::SmallString<32> s; V.getInt().toString(s, 10); if (V.getInt().getSignificantBits() <= 63) J.value((int64_t)(V.getInt().isSigned() ? V.getInt().getSExtValue() : (int64_t)V.getInt().getZExtValue())); else J.value(s.str()); break; }
      case APValue::Float: J.value(V.getFloat().convertToDouble()); break;
      case APValue::Array: J.arrayBegin(); for (unsigned i = 0; i < V.getArrayInitializedElts(); ++i) val(V.getArrayInitializedElt(i));
        if (V.hasArrayFiller() && V.getArraySize() < 100000) for (unsigned i = V.getArrayInitializedElts(); i < V.getArraySize(); ++i) val(V.getArrayFiller());
        J.arrayEnd(); break;
      case APValue::Struct: J.arrayBegin(); for (unsigned i = 0; i < V.getStructNumFields(); ++i) val(V.getStructField(i)); J.arrayEnd(); break;
      case APValue::LValue: {
        if (V.isNullPointer()) { J.value(nullptr); break; }
        auto B = V.getLValueBase();
        if (const Expr *E = B.dyn_cast<const Expr*>()) { if (auto *SL = dyn_cast<StringLiteral>(E)) { if (SL->getCharByteWidth() == 1) { J.value(sanitize(SL->getBytes())); break; } } }
        if (const ValueDecl *D = B.dyn_cast<const ValueDecl*>()) { J.object([&] { J.attribute("addr", vid(D)); }); break; }
        J.object([&] { J.attribute("addr", "?"); }); break; }
      default: J.object([&] { J.attribute("other", (int)V.getKind()); });
    }
  }
  void node(const Stmt *S) {
    J.objectBegin();
    J.attribute("k", S->getStmtClassName());
    J.attribute("l", (int64_t)lineOf(S->getBeginLoc()));
    auto ks = kids(S);
    if (!ks.empty()) { J.attributeBegin("c"); J.arrayBegin(); for (auto *K : ks) J.value(id(K)); J.arrayEnd(); J.attributeEnd(); }
    if (auto *E = dyn_cast<Expr>(S)) {
      if (!E->getType().isNull()) J.attribute("t", ty(E->getType()));
      if (E->isLValue()) J.attribute("lv", 1);
      if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && !E->isLValue()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) { J.attributeBegin("cv"); val(R.Val); J.attributeEnd(); }
      }
    }
    if (auto *D = dyn_cast<DeclRefExpr>(S)) {
      auto *V = D->getDecl();
      J.attribute("d", vid(V)); J.attribute("n", V->getNameAsString());
      const char *dk = isa<ParmVarDecl>(V) ? "parm" : isa<FunctionDecl>(V) ? "func" : isa<EnumConstantDecl>(V) ? "enum" : "var";
      if (auto *VD = dyn_cast<VarDecl>(V)) if (VD->hasGlobalStorage()) dk = VD->isStaticLocal() ? "slocal" : "global";
      J.attribute("dk", dk);
    } else if (auto *M = dyn_cast<MemberExpr>(S)) {
      auto *V = M->getMemberDecl();
      J.attribute("d", vid(V)); J.attribute("n", V->getNameAsString());
      J.attribute("dk", isa<FieldDecl>(V) ? "field" : isa<FunctionDecl>(V) ? "func" : isa<EnumConstantDecl>(V) ? "enum" : "global");
      if (M->isArrow()) J.attribute("arrow", 1);
    } else if (auto *CE = dyn_cast<CallExpr>(S)) {
      if (auto *F = CE->getDirectCallee()) {
        J.attribute("fn", fid(F)); J.attribute("n", F->getNameAsString());
        bool virt = false;
        if (auto *MC = dyn_cast<CXXMemberCallExpr>(CE)) {
          auto *MD = MC->getMethodDecl();
          if (MD && MD->isVirtual()) { auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens()); virt = ME && !ME->hasQualifier(); }
        }
        if (virt) J.attribute("virt", 1);
        if (isa<CXXMemberCallExpr>(CE)) J.attribute("mem", 1);
        if (auto *MD = dyn_cast<CXXMethodDecl>(F)) { J.attribute("cls", qn(MD->getParent())); if (MD->isConst()) J.attribute("cst", 1); if (MD->isStatic()) J.attribute("stat", 1); }
        if (F->isNoReturn()) J.attribute("noret", 1);
        J.attributeBegin("pt"); J.arrayBegin(); for (auto *P : F->parameters()) J.value(ty(P->getType())); J.arrayEnd(); J.attributeEnd();
      }
      if (auto *O = dyn_cast<CXXOperatorCallExpr>(CE)) J.attribute("op", getOperatorSpelling(O->getOperator()));
    } else if (auto *CC = dyn_cast<CXXConstructExpr>(S)) {
      J.attribute("fn", fid(CC->getConstructor())); J.attribute("cls", qn(CC->getConstructor()->getParent()));
      if (CC->isElidable()) J.attribute("elid", 1);
      if (CC->requiresZeroInitialization()) J.attribute("zero", 1);
      if (!CC->getConstructor()->isUserProvided()) J.attribute("implctor", 1);
      if (CC->getConstructor()->isDefaultConstructor()) J.attribute("defctor", 1);
      if (CC->getConstructor()->isCopyOrMoveConstructor()) J.attribute("copy", 1);
    } else if (auto *B = dyn_cast<BinaryOperator>(S)) { J.attribute("op", B->getOpcodeStr().str());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) { J.attribute("ct", ty(CA->getComputationLHSType())); J.attribute("cr", ty(CA->getComputationResultType())); }
    } else if (auto *U = dyn_cast<UnaryOperator>(S)) { J.attribute("op", UnaryOperator::getOpcodeStr(U->getOpcode()).str()); if (U->isPostfix()) J.attribute("post", 1);
    } else if (auto *K = dyn_cast<CastExpr>(S)) { J.attribute("ck", K->getCastKindName()); if (isa<ExplicitCastExpr>(K)) J.attribute("expl", 1);
    } else if (auto *I = dyn_cast<IntegerLiteral>(S)) { (void)I;
    } else if (auto *L = dyn_cast<StringLiteral>(S)) { if (L->getCharByteWidth() == 1) J.attribute("v", sanitize(L->getBytes()));
    } else if (auto *D = dyn_cast<DeclStmt>(S)) {
      J.attributeBegin("decls"); J.arrayBegin();
      for (auto *X : D->decls()) if (auto *V = dyn_cast<VarDecl>(X)) {
        J.object([&] { J.attribute("d", vid(V)); J.attribute("n", V->getNameAsString()); J.attribute("t", ty(V->getType())); J.attribute("i", id(V->getInit())); if (V->isStaticLocal()) J.attribute("static", 1); });
      }
      J.arrayEnd(); J.attributeEnd();
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      J.attribute("lo", id(X->getLHS())); J.attribute("hi", id(X->getRHS())); J.attribute("sub", id(X->getSubStmt()));
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) { J.attribute("sub", id(X->getSubStmt()));
    } else if (auto *X = dyn_cast<IfStmt>(S)) { J.attribute("cond", id(X->getCond())); J.attribute("then", id(X->getThen())); J.attribute("else", id(X->getElse()));
    } else if (auto *X = dyn_cast<WhileStmt>(S)) { J.attribute("cond", id(X->getCond())); J.attribute("body", id(X->getBody()));
    } else if (auto *X = dyn_cast<DoStmt>(S)) { J.attribute("cond", id(X->getCond())); J.attribute("body", id(X->getBody()));
    } else if (auto *X = dyn_cast<ForStmt>(S)) { J.attribute("init", id(X->getInit())); J.attribute("cond", id(X->getCond())); J.attribute("inc", id(X->getInc())); J.attribute("body", id(X->getBody()));
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) { J.attribute("cond", id(X->getCond())); J.attribute("body", id(X->getBody()));
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) { J.attribute("e", id(X->getRetValue()));
    } else if (auto *X = dyn_cast<CXXNewExpr>(S)) { J.attribute("at", ty(X->getAllocatedType())); if (X->isArray()) { J.attribute("arr", 1); if (auto sz = X->getArraySize()) J.attribute("size", id(*sz)); } if (X->getInitializer()) J.attribute("ini", id(X->getInitializer()));
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(S)) { if (X->isArrayForm()) J.attribute("arr", 1); J.attribute("arg", id(X->getArgument()));
    } else if (auto *X = dyn_cast<CXXCatchStmt>(S)) { if (X->getExceptionDecl()) { J.attribute("d", vid(X->getExceptionDecl())); J.attribute("ct", ty(X->getExceptionDecl()->getType())); }
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { if (X->isArgumentType()) J.attribute("at", ty(X->getArgumentType()));
    } else if (auto *X = dyn_cast<LabelStmt>(S)) { J.attribute("n", X->getName());
    } else if (auto *X = dyn_cast<GotoStmt>(S)) { J.attribute("n", X->getLabel()->getNameAsString()); }
    J.objectEnd();
  }

  void func(FunctionDecl *F) {
    locals.clear(); ids.clear(); order.clear();
    J.objectBegin();
    J.attribute("id", fid(F)); J.attribute("name", F->getNameAsString()); J.attribute("qn", qn(F));
    J.attribute("file", fileOf(F->getLocation())); J.attribute("line", (int64_t)lineOf(F->getLocation()));
    J.attribute("ret", ty(F->getReturnType()));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("cls", qn(M->getParent()));
      if (M->isVirtual()) J.attribute("virt", 1);
      if (M->isStatic()) J.attribute("stat", 1);
      if (M->isConst()) J.attribute("cst", 1);
      if (M->isCopyAssignmentOperator()) J.attribute("kind", "copyassign");
      J.attribute("access", (int)M->getAccess());
      J.attributeBegin("over"); J.arrayBegin(); for (auto *O : M->overridden_methods()) J.value(fid(O)); J.arrayEnd(); J.attributeEnd();
    }
    auto *CD = dyn_cast<CXXConstructorDecl>(F);
    if (CD) J.attribute("kind", CD->isCopyConstructor() ? "copyctor" : "ctor");
    if (isa<CXXDestructorDecl>(F)) J.attribute("kind", "dtor");
    if (F->isTemplateInstantiation()) { J.attribute("inst", 1); if (auto *T = F->getTemplateInstantiationPattern()) { J.attribute("pfile", fileOf(T->getLocation())); J.attribute("pline", (int64_t)lineOf(T->getLocation())); } }
    J.attributeBegin("params"); J.arrayBegin();
    for (auto *P : F->parameters()) J.object([&] { J.attribute("d", vid(P)); J.attribute("n", P->getNameAsString()); J.attribute("t", ty(P->getType())); });
    J.arrayEnd(); J.attributeEnd();
    if (CD) {
      J.attributeBegin("inits"); J.arrayBegin();
      for (auto *I : CD->inits()) J.object([&] {
        if (I->isAnyMemberInitializer()) J.attribute("field", qn(I->getAnyMember()));
        else if (I->isBaseInitializer()) J.attribute("base", ty(QualType(I->getBaseClass(), 0)));
        else if (I->isDelegatingInitializer()) J.attribute("deleg", 1);
        J.attribute("e", id(I->getInit())); if (I->isWritten()) J.attribute("written", 1);
      });
      J.arrayEnd(); J.attributeEnd();
    }
    J.attribute("body", id(F->getBody()));
    CFG::BuildOptions BO; BO.setAllAlwaysAdd(); BO.AddInitializers = true; BO.AddImplicitDtors = true; BO.AddTemporaryDtors = false; BO.PruneTriviallyFalseEdges = true; BO.AddEHEdges = false;
    BO.AddCXXDefaultInitExprInCtors = true; BO.AddCXXNewAllocator = false;
    std::unique_ptr<CFG> G = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (G) {
      J.attributeBegin("cfg"); J.objectBegin();
      J.attribute("entry", (int)G->getEntry().getBlockID()); J.attribute("exit", (int)G->getExit().getBlockID());
      J.attributeBegin("blocks"); J.arrayBegin();
      for (CFGBlock *B : *G) {
        J.objectBegin(); J.attribute("id", (int)B->getBlockID());
        J.attributeBegin("e"); J.arrayBegin();
        for (auto &E : *B) {
          if (auto S = E.getAs<CFGStmt>()) J.value(id(S->getStmt()));
          else if (auto I = E.getAs<CFGInitializer>()) {
            auto *X = I->getInitializer();
            J.object([&] { if (X->isAnyMemberInitializer()) J.attribute("field", qn(X->getAnyMember())); else if (X->isBaseInitializer()) J.attribute("base", ty(QualType(X->getBaseClass(), 0))); else J.attribute("deleg", 1); J.attribute("init", id(X->getInit())); });
          }
          else if (auto D = E.getAs<CFGAutomaticObjDtor>()) J.object([&] { J.attribute("dtor", vid(D->getVarDecl())); J.attribute("t", ty(D->getVarDecl()->getType())); });
        }
        J.arrayEnd(); J.attributeEnd();
        if (auto *T = B->getTerminatorStmt()) { J.attribute("term", id(T)); if (auto *TC = B->getTerminatorCondition(false)) J.attribute("cond", id(TC)); J.attribute("tk", T->getStmtClassName()); }
        if (auto *LC = B->getLastCondition()) J.attribute("lc", id(LC));
        if (auto *L = B->getLabel()) J.attribute("label", id(L));
        if (B->hasNoReturnElement()) J.attribute("noret", 1);
        J.attributeBegin("s"); J.arrayBegin();
        for (auto &S : B->succs()) { if (CFGBlock *X = S.getReachableBlock()) J.value((int)X->getBlockID()); else J.value(nullptr); }
        J.arrayEnd(); J.attributeEnd();
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
      J.objectEnd(); J.attributeEnd();
    }
    J.attributeBegin("nodes"); J.arrayBegin();
    for (size_t i = 0; i < order.size(); ++i) node(order[i]);
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd(); os << "\n";
  }

  void record(CXXRecordDecl *R) {
    J.objectBegin();
    J.attribute("id", qn(R)); J.attribute("file", fileOf(locOf(R))); J.attribute("line", (int64_t)lineOf(locOf(R)));
    if (isa<ClassTemplateSpecializationDecl>(R)) J.attribute("inst", 1);
    J.attributeBegin("bases"); J.arrayBegin(); for (auto &B : R->bases()) J.value(ty(B.getType())); J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("fields"); J.arrayBegin();
    for (auto *F : R->fields()) J.object([&] {
      QualType T = F->getType();
      J.attribute("id", qn(F)); J.attribute("n", F->getNameAsString()); J.attribute("t", ty(T)); J.attribute("line", (int64_t)lineOf(F->getLocation()));
      if (F->isMutable()) J.attribute("mut", 1);
      if (F->hasInClassInitializer()) J.attribute("ici", 1);
      QualType B = C.getBaseElementType(T);
      if (T->isArrayType()) { J.attribute("arr", 1); if (auto *A = C.getAsConstantArrayType(T)) J.attribute("alen", (int64_t)A->getSize().getZExtValue()); }
      if (B->isScalarType()) J.attribute("scalar", 1);
      if (B->isPointerType()) J.attribute("ptr", 1);
      if (auto *RD = B->getAsCXXRecordDecl()) { J.attribute("rec", qn(RD)); if (RD->hasDefinition()) { if (RD->hasTrivialDefaultConstructor()) J.attribute("trivctor", 1); } }
      if (F->isBitField()) J.attribute("bits", (int64_t)F->getBitWidthValue(C));
      else if (T->isIntegralOrEnumerationType()) J.attribute("width", (int64_t)C.getIntWidth(T));
      J.attribute("access", (int)F->getAccess());
    });
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("methods"); J.arrayBegin();
    for (auto *M : R->methods()) J.object([&] {
      J.attribute("id", fid(M)); J.attribute("n", M->getNameAsString()); J.attribute("access", (int)M->getAccess());
      if (M->isVirtual()) J.attribute("virt", 1); if (M->isPureVirtual()) J.attribute("pure", 1); if (M->isImplicit()) J.attribute("impl", 1); if (M->isDeleted()) J.attribute("del", 1); if (M->isDefaulted()) J.attribute("def", 1); if (M->isStatic()) J.attribute("stat", 1); if (M->isConst()) J.attribute("cst", 1);
      if (M->isCopyAssignmentOperator()) J.attribute("kind", "copyassign");
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) J.attribute("kind", K->isCopyConstructor() ? "copyctor" : "ctor");
      if (isa<CXXDestructorDecl>(M)) J.attribute("kind", "dtor");
      J.attributeBegin("over"); J.arrayBegin(); for (auto *O : M->overridden_methods()) J.value(fid(O)); J.arrayEnd(); J.attributeEnd();
    });
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd(); os << "\n";
  }
  bool deepConst(QualType T) {
    T = C.getBaseElementType(T);
    return T.isConstQualified() || T->isReferenceType();
  }
  void glob(VarDecl *V) {
    locals.clear();
    J.objectBegin();
    J.attribute("id", qn(V)); J.attribute("n", V->getNameAsString()); J.attribute("t", ty(V->getType())); J.attribute("file", fileOf(V->getLocation())); J.attribute("line", (int64_t)lineOf(V->getLocation()));
    if (deepConst(V->getType())) J.attribute("const", 1);
    if (V->getType().isVolatileQualified()) J.attribute("vol", 1);
    if (V->isStaticLocal()) { J.attribute("slocal", 1); if (auto *F = dyn_cast<FunctionDecl>(V->getDeclContext())) J.attribute("fn", fid(F)); }
    if (V->getTSCSpec() != TSCS_unspecified) J.attribute("tls", 1);
    if (auto *R = C.getBaseElementType(V->getType())->getAsCXXRecordDecl()) { J.attribute("rec", qn(R)); if (R->hasDefinition() && R->hasMutableFields()) J.attribute("mutf", 1); }
    const VarDecl *D = nullptr; 
    if (V->getAnyInitializer(D) && D) { J.attribute("hasinit", 1); if (!D->getInit()->isValueDependent()) if (auto *A = D->evaluateValue()) { J.attributeBegin("val"); val(*A); J.attributeEnd(); } }
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) J.attribute("decl", 1);
    J.objectEnd(); os << "\n";
  }

  void run() {
    TraverseDecl(C.getTranslationUnitDecl());
    J.objectBegin();
    J.attributeBegin("records"); J.arrayBegin(); for (auto *R : recs) record(R); J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("enums"); J.arrayBegin(); for (auto *E : enums) J.object([&] { J.attribute("id", qn(E)); J.attribute("file", fileOf(E->getLocation())); J.attributeBegin("vals"); J.objectBegin(); for (auto *K : E->enumerators()) J.attribute(K->getNameAsString(), K->getInitVal().getSExtValue()); J.objectEnd(); J.attributeEnd(); }); J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("globals"); J.arrayBegin(); for (auto *V : globs) glob(V); J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("functions"); J.arrayBegin(); for (auto *F : funcs) func(F); J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
    os << "\n";
  }
};

class Consumer : public ASTConsumer {
public:
  CompilerInstance &CI; Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
    std::error_code ec; llvm::raw_fd_ostream os(outName, ec);
    if (ec) { llvm::errs() << "cannot write " << outName << "\n"; exit(3); }
    Exporter E(C, os); E.run();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Consumer>(CI); }
};

int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage: rxexport OUT REGEX -- args file\n"; return 2; }
  outName = argv[1]; fileRegex = argv[2];
  std::vector<std::string> args; std::string file = argv[argc - 1];
  for (int i = 4; i < argc - 1; ++i) args.push_back(argv[i]);
  args.push_back("-resource-dir"); args.push_back("/usr/lib/llvm-18/lib/clang/18");
  args.push_back("-fsyntax-only"); args.push_back("-w");
  tooling::FixedCompilationDatabase DB("/repo", args);
  tooling::ClangTool T(DB, {file});
  T.clearArgumentsAdjusters();
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
