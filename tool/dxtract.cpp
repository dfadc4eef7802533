// dxtract: libTooling extractor.  Emits, for one translation unit, the resolved
// (type-checked, template-instantiated) syntax of every function body, record,
// enum and global variable that is defined under one of the given roots, as JSON.
#include <set>
#include <string>
#include <vector>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string OutFile;

namespace {

std::string intStr(const llvm::APSInt& v) {
  llvm::SmallString<32> s;
  v.toString(s, 10);
  return std::string(s.str());
}

class Ex {
 public:
  ASTContext& C;
  SourceManager& SM;
  std::set<std::string> seenF;
  Array functions, records, enums, globals, decls;

  explicit Ex(ASTContext& c) : C(c), SM(c.getSourceManager()) {}

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  int lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    if (const FileEntry* FE
        = SM.getFileEntryForID(SM.getFileID(SM.getExpansionLoc(L)))) {
      std::string rp = FE->tryGetRealPathName().str();
      if (!rp.empty()) f = rp;
    }
    for (auto& r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string realFile(SourceLocation L) {
    if (const FileEntry* FE
        = SM.getFileEntryForID(SM.getFileID(SM.getExpansionLoc(L)))) {
      std::string rp = FE->tryGetRealPathName().str();
      if (!rp.empty()) return rp;
    }
    return fileOf(L);
  }

  std::string declName(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    // qualified name without template arguments
    std::vector<std::string> parts;
    const DeclContext* DC = D->getDeclContext();
    while (DC) {
      if (auto* ND = dyn_cast<NamedDecl>(DC)) {
        if (auto* NS = dyn_cast<NamespaceDecl>(ND)) {
          if (!NS->isInline()) {
            if (!NS->isAnonymousNamespace())
              parts.push_back(NS->getNameAsString());
          }
        } else {
          std::string n = ND->getNameAsString();
          if (!n.empty()) parts.push_back(n);
        }
      }
      DC = DC->getParent();
    }
    std::string r;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) r += *it + "::";
    if (auto* CD = dyn_cast<CXXConstructorDecl>(D))
      r += CD->getParent()->getNameAsString();
    else if (auto* DD = dyn_cast<CXXDestructorDecl>(D))
      r += "~" + DD->getParent()->getNameAsString();
    else
      r += D->getNameAsString();
    return r;
  }

  std::string tyStr(QualType T, int depth = 0) {
    if (T.isNull()) return "?";
    std::string q;
    QualType CT = T.getCanonicalType();
    if (CT.isConstQualified()) q = "const ";
    const Type* t = CT.getTypePtr();
    if (auto* R = dyn_cast<LValueReferenceType>(t))
      return tyStr(R->getPointeeType(), depth) + "&";
    if (auto* R = dyn_cast<RValueReferenceType>(t))
      return tyStr(R->getPointeeType(), depth) + "&&";
    if (auto* P = dyn_cast<PointerType>(t))
      return tyStr(P->getPointeeType(), depth) + "*";
    if (auto* RT = dyn_cast<RecordType>(t)) {
      const RecordDecl* RD = RT->getDecl();
      std::string n = declName(RD);
      if (auto* SP = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        bool eig = n.compare(0, 7, "Eigen::") == 0;
        if (eig && n != "Eigen::Matrix" && n != "Eigen::Quaternion"
            && n != "Eigen::Array") {
          if (n == "Eigen::Map" && depth < 3)
            return q + n + "<" + taStr(SP->getTemplateArgs()[0], depth + 1) + ">";
          return q + n;
        }
        if (depth >= 3) return q + n + "<..>";
        n += "<";
        bool first = true;
        int cnt = 0;
        for (auto& A : SP->getTemplateArgs().asArray()) {
          if (eig && cnt >= 3) break;
          if (!eig && cnt >= 2) break;
          if (!first) n += ",";
          first = false;
          cnt++;
          n += taStr(A, depth + 1);
        }
        n += ">";
      }
      return q + n;
    }
    if (auto* ET = dyn_cast<EnumType>(t)) return q + declName(ET->getDecl());
    PrintingPolicy PP(C.getLangOpts());
    PP.SuppressTagKeyword = true;
    std::string s = CT.getUnqualifiedType().getAsString(PP);
    if (s.size() > 120) s = s.substr(0, 120);
    return q + s;
  }
  std::string taStr(const TemplateArgument& A, int depth = 0) {
    switch (A.getKind()) {
      case TemplateArgument::Type:
        return tyStr(A.getAsType(), depth);
      case TemplateArgument::Integral:
        return intStr(A.getAsIntegral());
      case TemplateArgument::Declaration:
        return declName(A.getAsDecl());
      case TemplateArgument::Pack: {
        std::string s;
        for (auto& p : A.pack_elements()) {
          if (!s.empty()) s += ",";
          s += taStr(p, depth);
        }
        return s;
      }
      default:
        return "?";
    }
  }

  std::string fid(const FunctionDecl* F) {
    llvm::SmallString<256> usr;
    if (index::generateUSRForDecl(F, usr)) return declName(F);
    return std::string(usr.str());
  }
  std::string did(const ValueDecl* D) {
    // stable-enough id of a variable: name@line:col
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    return D->getNameAsString() + "@"
           + std::to_string(SM.getExpansionLineNumber(L)) + ":"
           + std::to_string(SM.getExpansionColumnNumber(L));
  }

  Object node(const char* k, SourceLocation L) {
    Object o;
    o["k"] = k;
    o["l"] = lineOf(L);
    return o;
  }

  Value expr(const Expr* E) {
    if (!E) return nullptr;
    // peel
    while (true) {
      if (auto* X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) break; E = X->getSourceExpr(); }
      else if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
      else if (auto* X = dyn_cast<ImplicitCastExpr>(E)) {
        CastKind k = X->getCastKind();
        if (k == CK_IntegralToFloating || k == CK_FloatingToIntegral
            || k == CK_FloatingCast || k == CK_IntegralCast
            || k == CK_IntegralToBoolean || k == CK_PointerToBoolean
            || k == CK_FloatingToBoolean)
          break;
        E = X->getSubExpr();
      } else break;
    }
    SourceLocation L = E->getExprLoc();
    if (auto* X = dyn_cast<IntegerLiteral>(E)) {
      Object o = node("int", L);
      llvm::SmallString<32> s;
      X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str());
      return o;
    }
    if (auto* X = dyn_cast<FloatingLiteral>(E)) {
      Object o = node("float", L);
      llvm::SmallString<64> s;
      X->getValue().toString(s, 0, 0);
      // source text: exact decimal
      o["v"] = std::string(s.str());
      bool inv = false;
      StringRef txt = Lexer::getSourceText(
          CharSourceRange::getTokenRange(SM.getSpellingLoc(X->getBeginLoc()),
                                         SM.getSpellingLoc(X->getEndLoc())),
          SM, C.getLangOpts(), &inv);
      if (!inv) o["s"] = txt.str();
      return o;
    }
    if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object o = node("bool", L);
      o["v"] = X->getValue();
      return o;
    }
    if (auto* X = dyn_cast<CharacterLiteral>(E)) {
      Object o = node("int", L);
      o["v"] = std::to_string(X->getValue());
      o["char"] = true;
      return o;
    }
    if (auto* X = dyn_cast<StringLiteral>(E)) {
      Object o = node("str", L);
      std::string s = X->isOrdinary() ? X->getString().str() : "?";
      if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
      o["v"] = s;
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", L);
    if (auto* X = dyn_cast<CXXThisExpr>(E)) {
      Object o = node("this", L);
      o["t"] = tyStr(X->getType());
      return o;
    }
    if (auto* X = dyn_cast<DeclRefExpr>(E)) {
      Object o = node("ref", L);
      const ValueDecl* D = X->getDecl();
      o["n"] = D->getNameAsString();
      if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
        o["dk"] = "enum";
        o["q"] = declName(EC);
        o["v"] = intStr(EC->getInitVal());
        o["et"] = tyStr(EC->getType());
      } else if (auto* F = dyn_cast<FunctionDecl>(D)) {
        o["dk"] = "func";
        o["q"] = declName(F);
        o["fid"] = fid(F);
      } else if (auto* PV = dyn_cast<ParmVarDecl>(D)) {
        o["dk"] = "param";
        o["id"] = did(PV);
      } else if (auto* V = dyn_cast<VarDecl>(D)) {
        bool g = V->hasGlobalStorage() && !V->isStaticLocal();
        o["dk"] = V->isStaticLocal() ? "static" : (g ? "global" : "local");
        o["id"] = did(V);
        if (g || V->isStaticLocal()) o["q"] = declName(V);
      } else if (auto* B = dyn_cast<BindingDecl>(D)) {
        o["dk"] = "binding";
        o["id"] = did(B);
        if (B->getBinding()) o["e"] = expr(B->getBinding());
      } else {
        o["dk"] = "other";
        o["q"] = declName(D);
      }
      o["t"] = tyStr(D->getType());
      return o;
    }
    if (auto* X = dyn_cast<MemberExpr>(E)) {
      Object o = node("mem", L);
      o["b"] = expr(X->getBase());
      o["n"] = X->getMemberDecl()->getNameAsString();
      o["q"] = declName(X->getMemberDecl());
      o["arrow"] = X->isArrow();
      o["t"] = tyStr(X->getType());
      if (isa<CXXMethodDecl>(X->getMemberDecl())) o["method"] = true;
      if (auto* V = dyn_cast<VarDecl>(X->getMemberDecl())) { (void)V; o["static"] = true; }
      return o;
    }
    if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = node("call", L);
      fillCallee(o, X->getDirectCallee());
      o["op"] = getOperatorSpelling(X->getOperator());
      Array a;
      for (auto* A : X->arguments()) a.push_back(expr(A));
      if (X->getDirectCallee() && isa<CXXMethodDecl>(X->getDirectCallee())
          && !cast<CXXMethodDecl>(X->getDirectCallee())->isStatic()) {
        // first argument is the object
        o["obj"] = expr(X->getArg(0));
        Array b;
        for (unsigned i = 1; i < X->getNumArgs(); ++i) b.push_back(expr(X->getArg(i)));
        o["args"] = std::move(b);
      } else
        o["args"] = std::move(a);
      o["t"] = tyStr(X->getType());
      return o;
    }
    if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = node("call", L);
      fillCallee(o, X->getMethodDecl());
      o["obj"] = expr(X->getImplicitObjectArgument());
      if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
        o["arrow"] = ME->isArrow();
        if (ME->hasQualifier()) o["qualified"] = true;
      }
      o["objt"] = tyStr(X->getObjectType());
      Array a;
      for (auto* A : X->arguments()) a.push_back(expr(A));
      o["args"] = std::move(a);
      o["t"] = tyStr(X->getType());
      return o;
    }
    if (auto* X = dyn_cast<CallExpr>(E)) {
      Object o = node("call", L);
      if (X->getDirectCallee())
        fillCallee(o, X->getDirectCallee());
      else
        o["fn"] = expr(X->getCallee());
      Array a;
      for (auto* A : X->arguments()) a.push_back(expr(A));
      o["args"] = std::move(a);
      o["t"] = tyStr(X->getType());
      return o;
    }
    if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      Object o = node("ctor", L);
      const CXXConstructorDecl* CD = X->getConstructor();
      o["c"] = declName(CD->getParent());
      o["fid"] = fid(CD);
      if (CD->isCopyOrMoveConstructor()) o["copy"] = true;
      if (CD->isDefaultConstructor()) o["def"] = true;
      if (X->requiresZeroInitialization()) o["zi"] = true;
      Array a;
      for (auto* A : X->arguments()) a.push_back(expr(A));
      o["args"] = std::move(a);
      o["t"] = tyStr(X->getType());
      if (X->isListInitialization()) o["list"] = true;
      return o;
    }
    if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      Object o = node("unk", L);
      o["cls"] = "CXXInheritedCtorInitExpr";
      return o;
    }
    if (auto* X = dyn_cast<CXXScalarValueInitExpr>(E)) {
      Object o = node("zero", L);
      o["t"] = tyStr(X->getType());
      return o;
    }
    if (auto* X = dyn_cast<ImplicitValueInitExpr>(E)) {
      Object o = node("zero", L);
      o["t"] = tyStr(X->getType());
      return o;
    }
    if (auto* X = dyn_cast<BinaryOperator>(E)) {
      Object o = node(X->isAssignmentOp() ? "assign" : "bin", L);
      o["op"] = X->getOpcodeStr().str();
      o["x"] = expr(X->getLHS());
      o["y"] = expr(X->getRHS());
      o["t"] = tyStr(X->getType());
      return o;
    }
    if (auto* X = dyn_cast<UnaryOperator>(E)) {
      Object o = node("un", L);
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["post"] = X->isPostfix();
      o["e"] = expr(X->getSubExpr());
      o["t"] = tyStr(X->getType());
      return o;
    }
    if (auto* X = dyn_cast<ConditionalOperator>(E)) {
      Object o = node("cond", L);
      o["c"] = expr(X->getCond());
      o["x"] = expr(X->getTrueExpr());
      o["y"] = expr(X->getFalseExpr());
      o["t"] = tyStr(X->getType());
      return o;
    }
    if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = node("sub", L);
      o["b"] = expr(X->getBase());
      o["i"] = expr(X->getIdx());
      o["t"] = tyStr(X->getType());
      return o;
    }
    if (auto* X = dyn_cast<CastExpr>(E)) {
      Object o = node("cast", L);
      o["ck"] = X->getCastKindName();
      o["e"] = expr(X->getSubExpr());
      o["t"] = tyStr(X->getType());
      o["ft"] = tyStr(X->getSubExpr()->getType());
      if (isa<ExplicitCastExpr>(X)) o["explicit"] = true;
      return o;
    }
    if (auto* X = dyn_cast<InitListExpr>(E)) {
      Object o = node("init", L);
      const InitListExpr* S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S) S = X;
      Array a;
      for (auto* I : S->inits()) a.push_back(expr(I));
      o["a"] = std::move(a);
      o["t"] = tyStr(X->getType());
      return o;
    }
    if (auto* X = dyn_cast<LambdaExpr>(E)) {
      Object o = node("lambda", L);
      o["body"] = stmt(X->getBody());
      Array caps;
      for (auto& c : X->captures()) {
        if (c.capturesThis()) { caps.push_back("this"); continue; }
        if (c.capturesVariable()) {
          Object co;
          co["id"] = did(cast<ValueDecl>(c.getCapturedVar()));
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          if (auto* VD = dyn_cast<VarDecl>(c.getCapturedVar()); VD && VD->isInitCapture() && VD->getInit()) {
            co["init"] = expr(VD->getInit());
            co["t"] = tyStr(VD->getType());
          }
          caps.push_back(std::move(co));
        }
      }
      o["caps"] = std::move(caps);
      Array ps;
      if (X->getCallOperator())
        for (auto* P : X->getCallOperator()->parameters()) ps.push_back(param(P));
      o["params"] = std::move(ps);
      if (X->getCallOperator()) o["fid"] = fid(X->getCallOperator());
      return o;
    }
    if (auto* X = dyn_cast<CXXNewExpr>(E)) {
      Object o = node("new", L);
      o["t"] = tyStr(X->getAllocatedType());
      o["init"] = expr(X->getInitializer());
      return o;
    }
    if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
      Object o = node("delete", L);
      o["e"] = expr(X->getArgument());
      return o;
    }
    if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
      Object o = node("throw", L);
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) {
        Object o = node("int", L);
        o["v"] = intStr(R.Val.getInt());
        return o;
      }
    }
    if (auto* X = dyn_cast<CXXTypeidExpr>(E)) { (void)X; }
    {
      Object o = node("unk", L);
      o["cls"] = E->getStmtClassName();
      Array a;
      for (auto* ch : E->children())
        if (ch) {
          if (auto* ce = dyn_cast<Expr>(ch)) a.push_back(expr(ce));
        }
      o["a"] = std::move(a);
      return o;
    }
  }

  void fillCallee(Object& o, const FunctionDecl* F) {
    if (!F) return;
    o["f"] = declName(F);
    o["fid"] = fid(F);
    if (auto* TA = F->getTemplateSpecializationArgs()) {
      Array ta;
      for (auto& A : TA->asArray()) ta.push_back(taStr(A));
      o["ta"] = std::move(ta);
    }
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      if (auto* SP = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) {
        (void)SP;
        o["rec"] = tyStr(C.getRecordType(M->getParent()));
      }
    }
    Array pt;
    for (auto* P : F->parameters()) pt.push_back(tyStr(P->getType()));
    o["pt"] = std::move(pt);
  }

  Value param(const ParmVarDecl* P) {
    Object o;
    o["n"] = P->getNameAsString();
    o["id"] = did(P);
    o["t"] = tyStr(P->getType());
    return o;
  }

  Value varDecl(const VarDecl* V) {
    Object o = node("var", V->getLocation());
    o["n"] = V->getNameAsString();
    o["id"] = did(V);
    o["t"] = tyStr(V->getType());
    if (V->getType()->getContainedAutoType()) o["auto"] = true;
    if (V->isStaticLocal()) o["static"] = true;
    if (V->hasInit()) o["init"] = expr(V->getInit());
    if (auto* D = dyn_cast<DecompositionDecl>(V)) {
      Array b;
      for (auto* B : D->bindings()) {
        Object bo;
        bo["n"] = B->getNameAsString();
        bo["id"] = did(B);
        if (auto* HV = B->getHoldingVar()) {
          if (HV->hasInit()) bo["e"] = expr(HV->getInit());
        } else if (B->getBinding())
          bo["e"] = expr(B->getBinding());
        b.push_back(std::move(bo));
      }
      o["bindings"] = std::move(b);
    }
    return o;
  }

  Value stmt(const Stmt* S) {
    if (!S) return nullptr;
    SourceLocation L = S->getBeginLoc();
    if (auto* X = dyn_cast<CompoundStmt>(S)) {
      Object o = node("block", L);
      Array a;
      for (auto* c : X->body()) a.push_back(stmt(c));
      o["b"] = std::move(a);
      o["end"] = lineOf(X->getEndLoc());
      return o;
    }
    if (auto* X = dyn_cast<DeclStmt>(S)) {
      Object o = node("decl", L);
      Array a;
      for (auto* d : X->decls())
        if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      o["d"] = std::move(a);
      return o;
    }
    if (auto* X = dyn_cast<IfStmt>(S)) {
      Object o = node("if", L);
      o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["x"] = stmt(X->getThen());
      o["y"] = stmt(X->getElse());
      if (X->isConstexpr()) o["constexpr"] = true;
      return o;
    }
    if (auto* X = dyn_cast<ForStmt>(S)) {
      Object o = node("for", L);
      o["init"] = stmt(X->getInit());
      o["c"] = expr(X->getCond());
      o["inc"] = expr(X->getInc());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto* X = dyn_cast<WhileStmt>(S)) {
      Object o = node("while", L);
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto* X = dyn_cast<DoStmt>(S)) {
      Object o = node("do", L);
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
      Object o = node("rangefor", L);
      o["init"] = stmt(X->getInit());
      o["var"] = varDecl(X->getLoopVariable());
      o["range"] = expr(X->getRangeInit());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto* X = dyn_cast<ReturnStmt>(S)) {
      Object o = node("return", L);
      o["e"] = expr(X->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(S)) return node("break", L);
    if (isa<ContinueStmt>(S)) return node("continue", L);
    if (isa<NullStmt>(S)) return node("nop", L);
    if (auto* X = dyn_cast<SwitchStmt>(S)) {
      Object o = node("switch", L);
      o["init"] = stmt(X->getInit());
      o["c"] = expr(X->getCond());
      o["ct"] = tyStr(X->getCond()->IgnoreImpCasts()->getType());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto* X = dyn_cast<CaseStmt>(S)) {
      Object o = node("case", L);
      o["v"] = expr(X->getLHS());
      Expr::EvalResult R;
      if (X->getLHS()->EvaluateAsInt(R, C)) o["iv"] = intStr(R.Val.getInt());
      o["b"] = stmt(X->getSubStmt());
      return o;
    }
    if (auto* X = dyn_cast<DefaultStmt>(S)) {
      Object o = node("default", L);
      o["b"] = stmt(X->getSubStmt());
      return o;
    }
    if (auto* X = dyn_cast<CXXTryStmt>(S)) {
      Object o = node("try", L);
      o["b"] = stmt(X->getTryBlock());
      Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i)
        h.push_back(stmt(X->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(h);
      return o;
    }
    if (auto* X = dyn_cast<Expr>(S)) {
      Object o = node("expr", L);
      o["e"] = expr(X);
      return o;
    }
    if (auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    Object o = node("unkstmt", L);
    o["cls"] = S->getStmtClassName();
    return o;
  }

  void function(const FunctionDecl* F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
    if (F->isDependentContext()) return;
    if (!inRoots(F->getLocation())) return;
    if (F->isImplicit()) return;
    std::string id = fid(F);
    if (!seenF.insert(id).second) return;
    Object o;
    o["q"] = declName(F);
    o["fid"] = id;
    o["file"] = realFile(F->getLocation());
    o["l"] = lineOf(F->getLocation());
    o["el"] = lineOf(F->getEndLoc());
    o["ret"] = tyStr(F->getReturnType());
    Array ps;
    for (auto* P : F->parameters()) ps.push_back(param(P));
    o["params"] = std::move(ps);
    o["inlined"] = F->isInlined();
    o["tmpl"] = F->isTemplateInstantiation();
    o["linkage"] = F->isExternallyVisible() ? "ext" : "int";
    if (F->isDefaulted()) o["defaulted"] = true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = declName(M->getParent());
      o["const"] = M->isConst();
      o["static"] = M->isStatic();
      o["virt"] = M->isVirtual();
      o["access"] = (int)M->getAccess();
      Array ov;
      for (auto* b : M->overridden_methods()) ov.push_back(fid(b));
      o["overrides"] = std::move(ov);
    }
    if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      if (CD->isCopyOrMoveConstructor()) o["copyctor"] = true;
      Array in;
      for (auto* I : CD->inits()) {
        Object io;
        if (I->isAnyMemberInitializer())
          io["field"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer())
          io["base"] = tyStr(QualType(I->getBaseClass(), 0));
        else
          io["deleg"] = true;
        io["written"] = I->isWritten();
        io["e"] = expr(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (F->getBody()) o["body"] = stmt(F->getBody());
    functions.push_back(std::move(o));
  }

  // declarations of ordinary functions: is there a definition somewhere?
  std::set<std::string> seenD;
  void decl(const FunctionDecl* F) {
    if (F->isImplicit() || F->isDependentContext() || !inRoots(F->getLocation())) return;
    if (F->getDescribedFunctionTemplate() || F->isTemplateInstantiation()) return;
    if (F->getFriendObjectKind() != Decl::FOK_None) return;
    std::string id = fid(F);
    if (!seenD.insert(id + ":" + std::to_string(lineOf(F->getLocation()))).second) return;
    Object o;
    o["q"] = declName(F);
    o["fid"] = id;
    o["file"] = realFile(F->getLocation());
    o["l"] = lineOf(F->getLocation());
    o["body"] = F->doesThisDeclarationHaveABody() || F->isDefaulted() || F->isDeleted();
    o["pure"] = F->isPureVirtual();
    o["access"] = (int)F->getAccess();
    o["linkage"] = F->isExternallyVisible() ? "ext" : "int";
    decls.push_back(std::move(o));
  }

  std::set<std::string> seenR;
  void record(const CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return;
    SourceLocation rloc = R->getLocation();
    if (auto* CS = dyn_cast<ClassTemplateSpecializationDecl>(R))
      if (!CS->isExplicitSpecialization()) rloc = CS->getSpecializedTemplate()->getTemplatedDecl()->getLocation();
    if (!inRoots(rloc) || R->isLambda()) return;
    std::string n = declName(R);
    std::string full = tyStr(C.getRecordType(R));
    if (!seenR.insert(full).second) return;
    Object o;
    o["q"] = n;
    o["full"] = full;
    o["file"] = realFile(rloc);
    o["l"] = lineOf(rloc);
    o["el"] = lineOf(R->getEndLoc());
    o["abstract"] = R->isAbstract();
    Array fs, bs, ms;
    for (auto* f : R->fields()) {
      Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = tyStr(f->getType());
      fo["l"] = lineOf(f->getLocation());
      fo["access"] = (int)f->getAccess();
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        fo["init"] = expr(f->getInClassInitializer());
      fo["builtin"] = f->getType()->isBuiltinType() || f->getType()->isEnumeralType()
                      || f->getType()->isPointerType();
      fs.push_back(std::move(fo));
    }
    for (auto& b : R->bases()) bs.push_back(tyStr(b.getType()));
    for (auto* m : R->methods()) {
      if (m->isImplicit()) continue;
      Object mo;
      mo["q"] = declName(m);
      mo["fid"] = fid(m);
      mo["virt"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["access"] = (int)m->getAccess();
      Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(fid(b));
      mo["overrides"] = std::move(ov);
      Array pt;
      for (auto* P : m->parameters()) pt.push_back(tyStr(P->getType()));
      mo["pt"] = std::move(pt);
      ms.push_back(std::move(mo));
    }
    o["fields"] = std::move(fs);
    o["bases"] = std::move(bs);
    o["methods"] = std::move(ms);
    records.push_back(std::move(o));
  }
  std::set<std::string> seenE;
  void enumd(const EnumDecl* E) {
    if (!inRoots(E->getLocation())) return;
    std::string n = declName(E);
    if (!seenE.insert(n).second) return;
    Object o;
    o["q"] = n;
    o["file"] = realFile(E->getLocation());
    o["l"] = lineOf(E->getLocation());
    Array a;
    for (auto* c : E->enumerators()) {
      Object co;
      co["n"] = c->getNameAsString();
      co["v"] = intStr(c->getInitVal());
      a.push_back(std::move(co));
    }
    o["vals"] = std::move(a);
    enums.push_back(std::move(o));
  }
  std::set<std::string> seenG;
  void global(const VarDecl* V) {
    if (!inRoots(V->getLocation()) || isa<ParmVarDecl>(V)) return;
    if (!V->hasGlobalStorage()) return;
    if (V->isTemplated() || V->getDeclContext()->isDependentContext()) return;
    std::string n = declName(V);
    bool isdef = V->isThisDeclarationADefinition() == VarDecl::Definition;
    if (!seenG.insert(n + (isdef ? "#" : "")).second) return;
    Object o;
    o["q"] = n;
    o["file"] = realFile(V->getLocation());
    o["l"] = lineOf(V->getLocation());
    o["t"] = tyStr(V->getType());
    o["const"] = V->getType().isConstQualified() || V->isConstexpr();
    o["staticlocal"] = V->isStaticLocal();
    o["linkage"] = V->isExternallyVisible() ? "ext" : "int";
    o["inline"] = V->isInline();
    o["def"] = V->isThisDeclarationADefinition() == VarDecl::Definition;
    if (V->hasInit()) o["init"] = expr(V->getInit());
    globals.push_back(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  Ex& X;
  explicit V(Ex& x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* F) { X.decl(F); X.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) { X.record(R); return true; }
  bool VisitEnumDecl(EnumDecl* E) { X.enumd(E); return true; }
  bool VisitVarDecl(VarDecl* D) { X.global(D); return true; }
};

class Cons : public ASTConsumer {
 public:
  CompilerInstance& CI;
  explicit Cons(CompilerInstance& ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext& C) override {
    Ex x(C);
    V v(x);
    v.TraverseDecl(C.getTranslationUnitDecl());
    Object o;
    o["functions"] = std::move(x.functions);
    o["records"] = std::move(x.records);
    o["decls"] = std::move(x.decls);
    o["enums"] = std::move(x.enums);
    o["globals"] = std::move(x.globals);
    o["errors"] = (int)CI.getDiagnostics().getClient()->getNumErrors();
    // included repo files
    Array inc;
    auto& SM = C.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      std::string rp = it->first.getFileEntry().tryGetRealPathName().str();
      for (auto& r : Roots)
        if (rp.compare(0, r.size(), r) == 0) { inc.push_back(rp); break; }
    }
    o["files"] = std::move(inc);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << Value(std::move(o));
  }
};
class Act : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI,
                                                 StringRef) override {
    return std::make_unique<Cons>(CI);
  }
};
}  // namespace

// usage: dxtract OUT.json ROOT[,ROOT..] FILE -- flags...
int main(int argc, const char** argv) {
  if (argc < 5) { llvm::errs() << "usage: dxtract OUT ROOTS FILE -- flags\n"; return 2; }
  OutFile = argv[1];
  llvm::SmallVector<StringRef, 4> rs;
  StringRef(argv[2]).split(rs, ',');
  for (auto r : rs) Roots.push_back(r.str());
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {file});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
