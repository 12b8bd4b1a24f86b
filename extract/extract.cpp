// Extractor: dumps a normalised, type-resolved syntax tree of every function
// defined in the analysed repository as JSON.  Parsing only: nothing of the
// analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string RepoRoot;
static std::set<std::string> SeenFn;   // per process

namespace {

struct Dumper {
  ASTContext &C;
  Sema *S;
  std::unique_ptr<MangleContext> MC;
  PrintingPolicy PP;
  std::map<const void *, int> DeclIds;
  std::map<const void *, int> TypeIds;
  Array Types;
  std::vector<const FunctionDecl *> Pending;

  Dumper(ASTContext &C, Sema *S) : C(C), S(S), MC(C.createMangleContext()), PP(C.getLangOpts()) {
    PP.SuppressInlineNamespace = true;
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }

  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    int id = (int)DeclIds.size() + 1;
    DeclIds[D] = id;
    return id;
  }

  std::string stripInline(std::string s) {
    for (const char *n : {"__cxx11::", "__1::", "_V2::", "__debug::"}) {
      size_t p;
      while ((p = s.find(n)) != std::string::npos) s.erase(p, strlen(n));
    }
    return s;
  }

  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return stripInline(os.str());
  }

  std::string fileOf(SourceLocation L) {
    auto &SM = C.getSourceManager();
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  unsigned lineOf(SourceLocation L) {
    auto &SM = C.getSourceManager();
    return SM.getExpansionLineNumber(L);
  }
  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    if (f.empty()) return false;
    llvm::SmallString<256> P(f);
    if (!f.empty() && f[0] != '/') return false;
    return llvm::StringRef(f).starts_with(RepoRoot + "/") &&
           !llvm::StringRef(f).starts_with(RepoRoot + "/_build");
  }

  std::string mangled(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      if (FD->isDependentContext()) return "dep:" + qname(D);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
        MC->mangleName(GlobalDecl(CD, Ctor_Complete), os);
        return os.str();
      }
      if (auto *DD = dyn_cast<CXXDestructorDecl>(FD)) {
        MC->mangleName(GlobalDecl(DD, Dtor_Complete), os);
        return os.str();
      }
    }
    if (MC->shouldMangleDeclName(D)) MC->mangleName(GlobalDecl(D), os);
    else os << D->getNameAsString();
    // internal linkage: qualify with the file
    if (auto *FD = dyn_cast<FunctionDecl>(D))
      if (!FD->isExternallyVisible()) os << "@" << fileOf(FD->getLocation()) << ":" << D->getNameAsString();
    if (auto *VD = dyn_cast<VarDecl>(D))
      if (!VD->isExternallyVisible()) os << "@" << fileOf(VD->getLocation());
    return os.str();
  }

  int type(QualType T) {
    if (T.isNull()) return -1;
    QualType CT = T.getCanonicalType();
    auto it = TypeIds.find(CT.getAsOpaquePtr());
    if (it != TypeIds.end()) return it->second;
    int id = (int)Types.size();
    TypeIds[CT.getAsOpaquePtr()] = id;
    Types.push_back(nullptr);
    Object o;
    o["s"] = stripInline(CT.getAsString(PP));
    if (CT.isConstQualified()) o["const"] = true;
    QualType U = CT.getUnqualifiedType();
    if (auto *P = U->getAs<PointerType>()) {
      o["k"] = "ptr";
      o["to"] = type(P->getPointeeType());
    } else if (auto *R = U->getAs<ReferenceType>()) {
      o["k"] = isa<RValueReferenceType>(R) ? "rref" : "ref";
      o["to"] = type(R->getPointeeType());
    } else if (auto *E = U->getAs<EnumType>()) {
      o["k"] = "enum";
      o["n"] = qname(E->getDecl());
      Array a;
      for (auto *EC : E->getDecl()->enumerators()) {
        a.push_back(Array{qname(EC), EC->getInitVal().getExtValue()});
      }
      o["consts"] = std::move(a);
      if (E->getDecl()->isComplete()) {
        o["bits"] = (int64_t)C.getTypeSize(U);
        o["uns"] = E->isUnsignedIntegerOrEnumerationType();
      }
    } else if (auto *B = U->getAs<BuiltinType>()) {
      o["k"] = "bi";
      if (U->isIntegerType()) {
        o["int"] = true;
        o["bits"] = U->isBooleanType() ? 1 : (int64_t)C.getTypeSize(U);
        o["uns"] = U->isUnsignedIntegerType();
        if (U->isBooleanType()) o["bool"] = true;
      }
      (void)B;
    } else if (auto *RT = U->getAs<RecordType>()) {
      o["k"] = "rec";
      auto *RD = RT->getDecl();
      o["n"] = qname(RD);
      o["repo"] = inRepo(RD->getLocation());
      if (auto *CRD = dyn_cast<CXXRecordDecl>(RD)) {
        if (CRD->isLambda()) o["lambda"] = declId(CRD);
        if (CRD->hasDefinition()) {
          o["trivdtor"] = CRD->hasTrivialDestructor();
          if (auto *DD = CRD->getDestructor())
            if (!DD->isImplicit() || true) o["dtor"] = mangled(DD);
        }
      }
      if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        Array a;
        for (auto &A : TS->getTemplateArgs().asArray())
          if (A.getKind() == TemplateArgument::Type) a.push_back(type(A.getAsType()));
        o["targs"] = std::move(a);
      }
      if (RD->isCompleteDefinition() && !RD->isDependentType())
        o["size"] = (int64_t)C.getTypeSizeInChars(U).getQuantity();
    } else if (auto *A = C.getAsConstantArrayType(U)) {
      o["k"] = "arr";
      o["len"] = (int64_t)A->getSize().getZExtValue();
      o["to"] = type(A->getElementType());
      o["size"] = (int64_t)C.getTypeSizeInChars(U).getQuantity();
    } else if (auto *FT = U->getAs<FunctionProtoType>()) {
      o["k"] = "fn";
      o["ret"] = type(FT->getReturnType());
      Array ps;
      for (auto p : FT->param_types()) ps.push_back(type(p));
      o["ps"] = std::move(ps);
    } else {
      o["k"] = "other";
    }
    Types[id] = std::move(o);
    return id;
  }

  Value fnInfo(const FunctionDecl *FD) {
    Object o;
    o["q"] = qname(FD);
    o["m"] = mangled(FD);
    const FunctionDecl *Def = nullptr;
    bool repo = inRepo(FD->getLocation());
    if (FD->hasBody(Def) && Def && inRepo(Def->getLocation())) repo = true;
    if (repo) o["repo"] = true;
    if (FD->isNoReturn()) o["noret"] = true;
    if (FD->isVariadic()) o["var"] = true;
    if (FD->isOverloadedOperator()) o["op"] = getOperatorSpelling(FD->getOverloadedOperator());
    if (auto *FPT = FD->getType()->getAs<FunctionProtoType>())
      if (FPT->isNothrow()) o["nothrow"] = true;
    Array ps;
    for (auto *P : FD->parameters()) ps.push_back(type(P->getType()));
    o["ps"] = std::move(ps);
    o["ret"] = type(FD->getReturnType());
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = qname(MD->getParent());
      if (MD->isConst()) o["cm"] = true;
      if (MD->isStatic()) o["static"] = true;
      if (MD->isVirtual()) o["virt"] = true;
      if (MD->isImplicit() || MD->isDefaulted()) o["dflt"] = true;
      if (MD->isCopyAssignmentOperator() ) o["copyasg"] = true;
      if (MD->isMoveAssignmentOperator() ) o["moveasg"] = true;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(MD)) {
        o["ctor"] = true;
        if (CD->isCopyConstructor()) o["copy"] = true;
        if (CD->isMoveConstructor()) o["move"] = true;
      }
      if (isa<CXXDestructorDecl>(MD)) o["dtor"] = true;
      if (isa<CXXConversionDecl>(MD)) o["conv"] = true;
      if (MD->getParent()->isLambda()) o["lambda"] = declId(MD->getParent());
    }
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      Array a;
      for (auto &A : TA->asArray())
        if (A.getKind() == TemplateArgument::Type) a.push_back(type(A.getAsType()));
      o["targs"] = std::move(a);
    }
    return o;
  }

  std::string latin(StringRef s) {   // bytes -> JSON-safe latin-1 text
    std::string r;
    for (unsigned char c : s) {
      if (c < 0x80) r += (char)c;
      else { r += (char)(0xC0 | (c >> 6)); r += (char)(0x80 | (c & 0x3F)); }
    }
    return r;
  }

  Object base(const char *e, const Expr *E) {
    Object o;
    o["e"] = e;
    o["l"] = (int64_t)lineOf(E->getExprLoc());
    o["t"] = type(E->getType());
    o["vc"] = E->isLValue() ? "l" : E->isXValue() ? "x" : "p";
    if (!E->isValueDependent() && E->isPRValue() && E->getType()->isIntegralOrEnumerationType() &&
        !isa<IntegerLiteral>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        auto &I = R.Val.getInt();
        if (I.getSignificantBits() <= 64)
          o["cv"] = I.isUnsigned() && I.getBitWidth() == 64 && I.getZExtValue() > (uint64_t)INT64_MAX
                        ? Value(std::to_string(I.getZExtValue()))
                        : Value((int64_t)I.getExtValue());
      }
    }
    return o;
  }

  Array exprs(llvm::ArrayRef<const Expr *> es) {
    Array a;
    for (auto *e : es) a.push_back(expr(e));
    return a;
  }

  Value varRef(const ValueDecl *D) {
    Object o;
    o["id"] = declId(D);
    o["n"] = D->getNameAsString();
    if (auto *VD = dyn_cast<VarDecl>(D)) {
      o["dk"] = isa<ParmVarDecl>(VD) ? "parm" : "var";
      if (VD->hasGlobalStorage()) {
        o["glob"] = mangled(VD);
        o["q"] = qname(VD);
        if (VD->isStaticLocal()) o["slocal"] = true;
        if (inRepo(VD->getLocation())) o["repo"] = true;
        if (VD->getType().isConstQualified()) o["const"] = true;
        if (VD->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
      }
    }
    return o;
  }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    while (true) {
      if (auto *x = dyn_cast<ParenExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ExprWithCleanups>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ConstantExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = x->getReplacement(); continue; }
      if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) { E = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) { E = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) {
        Object o = base("stdinit", E);
        o["x"] = expr(x->getSubExpr());
        return o;
      }
      if (auto *x = dyn_cast<GenericSelectionExpr>(E)) { E = x->getResultExpr(); continue; }
      if (auto *x = dyn_cast<ChooseExpr>(E)) { E = x->getChosenSubExpr(); continue; }
      if (auto *x = dyn_cast<UnaryOperator>(E))
        if (x->getOpcode() == UO_Extension) { E = x->getSubExpr(); continue; }
      break;
    }
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) {
      Object o = base("tmp", E);
      o["x"] = expr(x->getSubExpr());
      o["id"] = (int64_t)(DeclIds.emplace((const void *)x, (int)DeclIds.size() + 1).first->second);
      return o;
    }
    if (auto *x = dyn_cast<IntegerLiteral>(E)) {
      Object o = base("int", E);
      auto v = x->getValue();
      if (x->getType()->isUnsignedIntegerType() && v.getBitWidth() == 64 && v.getZExtValue() > (uint64_t)INT64_MAX)
        o["v"] = std::to_string(v.getZExtValue());
      else o["v"] = (int64_t)(x->getType()->isUnsignedIntegerType() ? (int64_t)v.getZExtValue() : v.getSExtValue());
      return o;
    }
    if (auto *x = dyn_cast<CharacterLiteral>(E)) {
      Object o = base("int", E);
      int64_t v = x->getValue();
      if (x->getType()->isCharType() && x->getType()->isSignedIntegerType()) v = (int8_t)v;
      o["v"] = v;
      o["chr"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object o = base("int", E);
      o["v"] = (int64_t)x->getValue();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return base("null", E);
    if (isa<FloatingLiteral>(E)) {
      Object o = base("float", E);
      o["v"] = cast<FloatingLiteral>(E)->getValueAsApproximateDouble();
      return o;
    }
    if (auto *x = dyn_cast<StringLiteral>(E)) {
      Object o = base("str", E);
      if (x->getCharByteWidth() == 1) o["v"] = latin(x->getString());
      return o;
    }
    if (isa<PredefinedExpr>(E)) {
      Object o = base("str", E);
      if (auto *SL = cast<PredefinedExpr>(E)->getFunctionName()) o["v"] = latin(SL->getString());
      return o;
    }
    if (isa<CXXThisExpr>(E)) return base("this", E);
    if (auto *x = dyn_cast<DeclRefExpr>(E)) {
      auto *D = x->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        Object o = base("int", E);
        o["v"] = (int64_t)EC->getInitVal().getExtValue();
        o["en"] = qname(EC);
        return o;
      }
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        Object o = base("fn", E);
        o["fn"] = fnInfo(FD);
        return o;
      }
      Object o = base("ref", E);
      o["d"] = varRef(D);
      if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(E)) {
      if (auto *FD = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        Object o = base("mem", E);
        o["b"] = expr(x->getBase());
        o["arrow"] = x->isArrow();
        o["f"] = FD->getNameAsString();
        o["rec"] = qname(FD->getParent());
        if (FD->getNameAsString().empty()) o["f"] = "anon" + std::to_string(FD->getFieldIndex());
        o["repo"] = inRepo(FD->getLocation());
        return o;
      }
      if (auto *VD = dyn_cast<VarDecl>(x->getMemberDecl())) {
        Object o = base("ref", E);
        o["d"] = varRef(VD);
        return o;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) {
        Object o = base("int", E);
        o["v"] = (int64_t)EC->getInitVal().getExtValue();
        o["en"] = qname(EC);
        return o;
      }
      Object o = base("memfn", E);
      o["b"] = expr(x->getBase());
      o["arrow"] = x->isArrow();
      if (auto *FD = dyn_cast<FunctionDecl>(x->getMemberDecl())) o["fn"] = fnInfo(FD);
      return o;
    }
    if (auto *x = dyn_cast<CastExpr>(E)) {
      auto k = x->getCastKind();
      if (k == CK_NoOp || k == CK_FunctionToPointerDecay || k == CK_BuiltinFnToFnPtr ||
          k == CK_ConstructorConversion || k == CK_UserDefinedConversion)
        return withCastInfo(expr(x->getSubExpr()), x);
      Object o = base("cast", E);
      o["ck"] = x->getCastKindName();
      o["x"] = expr(x->getSubExpr());
      if (!isa<ImplicitCastExpr>(x)) o["expl"] = true;
      return o;
    }
    if (auto *x = dyn_cast<UnaryOperator>(E)) {
      Object o = base("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["x"] = expr(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(E)) {
      Object o = base("casg", E);
      o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
      o["x"] = expr(x->getLHS());
      o["y"] = expr(x->getRHS());
      o["ct"] = type(x->getComputationResultType());
      return o;
    }
    if (auto *x = dyn_cast<BinaryOperator>(E)) {
      Object o = base(x->getOpcode() == BO_Assign ? "asg" : "bin", E);
      o["op"] = x->getOpcodeStr().str();
      o["x"] = expr(x->getLHS());
      o["y"] = expr(x->getRHS());
      return o;
    }
    if (auto *x = dyn_cast<ConditionalOperator>(E)) {
      Object o = base("cond", E);
      o["c"] = expr(x->getCond());
      o["x"] = expr(x->getTrueExpr());
      o["y"] = expr(x->getFalseExpr());
      return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = base("idx", E);
      o["b"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
      return o;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = base("call", E);
      if (auto *FD = x->getDirectCallee()) {
        o["fn"] = fnInfo(FD);
        auto *MD = dyn_cast<CXXMethodDecl>(FD);
        if (MD && !MD->isStatic()) {
          o["obj"] = expr(x->getArg(0));
          Array a;
          for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(expr(x->getArg(i)));
          o["args"] = std::move(a);
          return o;
        }
      } else o["callee"] = expr(x->getCallee());
      Array a;
      for (auto *e : x->arguments()) a.push_back(expr(e));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = base("call", E);
      if (auto *MD = x->getMethodDecl()) {
        o["fn"] = fnInfo(MD);
        const Expr *Cal = x->getCallee()->IgnoreParens();
        if (auto *ME = dyn_cast<MemberExpr>(Cal)) {
          o["obj"] = expr(ME->getBase());
          o["arrow"] = ME->isArrow();
        } else {
          o["obj"] = expr(x->getImplicitObjectArgument());
          o["arrow"] = x->getImplicitObjectArgument()->getType()->isPointerType();
        }
      } else o["callee"] = expr(x->getCallee());
      Array a;
      for (auto *e : x->arguments()) a.push_back(expr(e));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CallExpr>(E)) {
      Object o = base("call", E);
      if (auto *FD = x->getDirectCallee()) o["fn"] = fnInfo(FD);
      else o["callee"] = expr(x->getCallee());
      Array a;
      for (auto *e : x->arguments()) a.push_back(expr(e));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
      Object o = base("ctor", E);
      o["fn"] = fnInfo(x->getConstructor());
      if (x->isElidable()) o["elid"] = true;
      if (x->requiresZeroInitialization()) o["zero"] = true;
      Array a;
      for (auto *e : x->arguments()) a.push_back(expr(e));
      o["args"] = std::move(a);
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return base("zero", E);
    if (auto *x = dyn_cast<InitListExpr>(E)) {
      Object o = base("ilist", E);
      Array a;
      for (auto *e : x->inits()) a.push_back(expr(e));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(E)) {
      Object o = base("new", E);
      o["arr"] = x->isArray();
      o["at"] = type(x->getAllocatedType());
      if (x->isArray() && x->getArraySize()) o["n"] = expr(*x->getArraySize());
      o["init"] = expr(x->getInitializer());
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(E)) {
      Object o = base("delete", E);
      o["arr"] = x->isArrayForm();
      o["x"] = expr(x->getArgument());
      return o;
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(E)) {
      Object o = base("throw", E);
      o["x"] = expr(x->getSubExpr());
      if (x->getSubExpr()) o["xt"] = type(x->getSubExpr()->getType());
      return o;
    }
    if (auto *x = dyn_cast<LambdaExpr>(E)) {
      Object o = base("lambda", E);
      o["cls"] = declId(x->getLambdaClass());
      Array caps;
      auto init = x->capture_init_begin();
      for (auto &Cp : x->captures()) {
        Object c;
        if (Cp.capturesThis()) c["this"] = true;
        else if (Cp.capturesVariable()) {
          c["d"] = varRef(Cp.getCapturedVar());
          c["ref"] = Cp.getCaptureKind() == LCK_ByRef;
          c["init"] = expr(*init);
        }
        ++init;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      auto *MD = x->getCallOperator();
      if (x->isGenericLambda()) {
        o["generic"] = true;
        Array specs;
        if (auto *FT = MD->getDescribedFunctionTemplate())
          for (auto *Sp : FT->specializations()) specs.push_back(function(Sp));
        o["specs"] = std::move(specs);
      } else o["fn"] = function(MD);
      return o;
    }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      return base("sizeof", E);
      (void)x;
    }
    if (auto *x = dyn_cast<CXXTypeidExpr>(E)) { (void)x; return base("opaque", E); }
    if (auto *x = dyn_cast<StmtExpr>(E)) {
      Object o = base("stmtexpr", E);
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto *x = dyn_cast<BinaryConditionalOperator>(E)) {
      Object o = base("opaque", E);
      o["kind"] = "BinaryConditionalOperator";
      Array a;
      a.push_back(expr(x->getCommon()));
      a.push_back(expr(x->getFalseExpr()));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<ArrayInitLoopExpr>(E)) {
      Object o = base("opaque", E);
      o["kind"] = "ArrayInitLoop";
      (void)x;
      return o;
    }
    Object o = base("opaque", E);
    o["kind"] = E->getStmtClassName();
    Array a;
    for (auto *Ch : E->children())
      if (auto *Ex = dyn_cast_or_null<Expr>(Ch)) a.push_back(expr(Ex));
    o["args"] = std::move(a);
    return o;
  }

  Value withCastInfo(Value v, const CastExpr *x) {
    (void)x;
    return v;
  }

  Value varDecl(const VarDecl *VD) {
    Object o;
    o["d"] = varRef(VD);
    o["t"] = type(VD->getType());
    o["l"] = (int64_t)lineOf(VD->getLocation());
    if (VD->getInit()) o["init"] = expr(VD->getInit());
    if (VD->isStaticLocal()) o["static"] = true;
    return o;
  }

  Value stmt(const Stmt *St) {
    if (!St) return nullptr;
    if (auto *E = dyn_cast<Expr>(St)) {
      Object o;
      o["s"] = "expr";
      o["l"] = (int64_t)lineOf(E->getBeginLoc());
      o["x"] = expr(E);
      return o;
    }
    Object o;
    o["l"] = (int64_t)lineOf(St->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(St)) {
      o["s"] = "block";
      Array a;
      for (auto *c : x->body()) a.push_back(stmt(c));
      o["b"] = std::move(a);
      o["el"] = (int64_t)lineOf(x->getRBracLoc());
    } else if (auto *x = dyn_cast<DeclStmt>(St)) {
      o["s"] = "decl";
      Array a;
      for (auto *D : x->decls())
        if (auto *VD = dyn_cast<VarDecl>(D)) a.push_back(varDecl(VD));
      o["vars"] = std::move(a);
    } else if (auto *x = dyn_cast<IfStmt>(St)) {
      o["s"] = "if";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (auto *VD = x->getConditionVariable()) o["var"] = varDecl(VD);
      o["c"] = expr(x->getCond());
      o["th"] = stmt(x->getThen());
      if (x->getElse()) o["el"] = stmt(x->getElse());
    } else if (auto *x = dyn_cast<WhileStmt>(St)) {
      o["s"] = "while";
      if (auto *VD = x->getConditionVariable()) o["var"] = varDecl(VD);
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
    } else if (auto *x = dyn_cast<DoStmt>(St)) {
      o["s"] = "do";
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
    } else if (auto *x = dyn_cast<ForStmt>(St)) {
      o["s"] = "for";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (auto *VD = x->getConditionVariable()) o["var"] = varDecl(VD);
      if (x->getCond()) o["c"] = expr(x->getCond());
      if (x->getInc()) o["inc"] = expr(x->getInc());
      o["b"] = stmt(x->getBody());
    } else if (auto *x = dyn_cast<CXXForRangeStmt>(St)) {
      o["s"] = "range";
      o["range"] = stmt(x->getRangeStmt());
      o["begin"] = stmt(x->getBeginStmt());
      o["end"] = stmt(x->getEndStmt());
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["lv"] = stmt(x->getLoopVarStmt());
      o["b"] = stmt(x->getBody());
    } else if (auto *x = dyn_cast<SwitchStmt>(St)) {
      o["s"] = "switch";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (auto *VD = x->getConditionVariable()) o["var"] = varDecl(VD);
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
    } else if (auto *x = dyn_cast<CaseStmt>(St)) {
      o["s"] = "case";
      o["v"] = expr(x->getLHS());
      if (x->getRHS()) o["v2"] = expr(x->getRHS());
      o["b"] = stmt(x->getSubStmt());
    } else if (auto *x = dyn_cast<DefaultStmt>(St)) {
      o["s"] = "default";
      o["b"] = stmt(x->getSubStmt());
    } else if (isa<BreakStmt>(St)) o["s"] = "break";
    else if (isa<ContinueStmt>(St)) o["s"] = "continue";
    else if (auto *x = dyn_cast<ReturnStmt>(St)) {
      o["s"] = "return";
      if (x->getRetValue()) o["x"] = expr(x->getRetValue());
    } else if (auto *x = dyn_cast<GotoStmt>(St)) {
      o["s"] = "goto";
      o["n"] = x->getLabel()->getNameAsString();
    } else if (auto *x = dyn_cast<LabelStmt>(St)) {
      o["s"] = "label";
      o["n"] = x->getDecl()->getNameAsString();
      o["b"] = stmt(x->getSubStmt());
    } else if (auto *x = dyn_cast<CXXTryStmt>(St)) {
      o["s"] = "try";
      o["b"] = stmt(x->getTryBlock());
      Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto *H = x->getHandler(i);
        Object h;
        if (H->getExceptionDecl()) {
          h["var"] = varDecl(H->getExceptionDecl());
          QualType T = H->getCaughtType().getNonReferenceType();
          h["ct"] = type(T.getUnqualifiedType());
        } else h["all"] = true;
        h["b"] = stmt(H->getHandlerBlock());
        h["l"] = (int64_t)lineOf(H->getBeginLoc());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
    } else if (isa<NullStmt>(St)) o["s"] = "null";
    else if (auto *x = dyn_cast<AttributedStmt>(St)) return stmt(x->getSubStmt());
    else {
      o["s"] = "opaque";
      o["kind"] = St->getStmtClassName();
    }
    return o;
  }

  Value function(const FunctionDecl *FD) {
    Object o = std::move(*fnInfo(FD).getAsObject());
    o["file"] = fileOf(FD->getLocation());
    o["line"] = (int64_t)lineOf(FD->getLocation());
    Array ps;
    for (auto *P : FD->parameters()) {
      Object p;
      p["d"] = varRef(P);
      p["t"] = type(P->getType());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      Array is;
      for (auto *I : CD->inits()) {
        Object i;
        if (I->isMemberInitializer()) i["f"] = I->getMember()->getNameAsString();
        else if (I->isBaseInitializer()) i["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) i["deleg"] = true;
        i["x"] = expr(I->getInit());
        i["wr"] = I->isWritten();
        is.push_back(std::move(i));
      }
      o["inits"] = std::move(is);
    }
    const char *acc = "none";
    if (FD->getAccess() == AS_public) acc = "public";
    else if (FD->getAccess() == AS_private) acc = "private";
    else if (FD->getAccess() == AS_protected) acc = "protected";
    o["access"] = acc;
    o["ext"] = FD->isExternallyVisible();
    // declared in a header: other translation units can call it
    bool hdr = false;
    for (auto *R : FD->redecls()) {
      std::string N = fileOf(R->getLocation());
      StringRef F(N);
      if (F.ends_with(".hpp") || F.ends_with(".h") || F.ends_with(".hh")) hdr = true;
    }
    o["hdr"] = hdr;
    const FunctionDecl *Def = nullptr;
    if (FD->hasBody(Def) && Def) {
      // parameters of the definition carry the ids used in the body
      o["body"] = stmt(Def->getBody());
    }
    return o;
  }

  Value record(const CXXRecordDecl *RD) {
    Object o;
    o["q"] = qname(RD);
    o["id"] = declId(RD);
    o["file"] = fileOf(RD->getLocation());
    o["line"] = (int64_t)lineOf(RD->getLocation());
    Array fs;
    for (auto *F : RD->fields()) {
      Object f;
      f["n"] = F->getNameAsString();
      f["t"] = type(F->getType());
      f["access"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_private ? "private" : "protected";
      if (F->isMutable()) f["mutable"] = true;
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    Array bs;
    for (auto &B : RD->bases()) bs.push_back(type(B.getType()));
    o["bases"] = std::move(bs);
    Array ms;
    for (auto *M : RD->methods()) {
      Object m;
      m["q"] = qname(M);
      m["m"] = mangled(M);
      m["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected";
      if (M->isDeleted()) m["deleted"] = true;
      if (M->isImplicit()) m["implicit"] = true;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
        m["ctor"] = true;
        if (CD->isCopyConstructor()) m["copy"] = true;
        if (CD->isMoveConstructor()) m["move"] = true;
        if (CD->isDefaultConstructor()) m["default"] = true;
      }
      if (M->isCopyAssignmentOperator()) m["copyasg"] = true;
      if (M->isMoveAssignmentOperator()) m["moveasg"] = true;
      if (isa<CXXDestructorDecl>(M)) m["dtor"] = true;
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    return o;
  }
};

struct Collect : RecursiveASTVisitor<Collect> {
  Dumper &D;
  Array Fns, Recs, Globs;
  std::set<const void *> Seen;
  Collect(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted()) return true;
    if (FD->isDependentContext()) return true;
    if (!D.inRepo(FD->getLocation())) return true;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
      if (MD->getParent()->isLambda()) return true;  // dumped inside the lambda expression
    if (!FD->doesThisDeclarationHaveABody()) {
      return true;
    }
    if (!Seen.insert(FD->getCanonicalDecl()).second) return true;
    Fns.push_back(D.function(FD));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() || RD->isLambda()) return true;
    if (!D.inRepo(RD->getLocation())) return true;
    if (D.S) D.S->ForceDeclarationOfImplicitMembers(RD);
    Recs.push_back(D.record(RD));
    return true;
  }
  bool VisitVarDecl(VarDecl *VD) {
    if (!VD->hasGlobalStorage() || isa<ParmVarDecl>(VD)) return true;
    if (!D.inRepo(VD->getLocation())) return true;
    if (VD->getDeclContext()->isDependentContext()) return true;
    Object o;
    o["d"] = D.varRef(VD);
    o["q"] = D.qname(VD);
    o["m"] = D.mangled(VD);
    o["t"] = D.type(VD->getType());
    o["file"] = D.fileOf(VD->getLocation());
    o["line"] = (int64_t)D.lineOf(VD->getLocation());
    o["slocal"] = VD->isStaticLocal();
    if (VD->getType().isConstQualified()) o["const"] = true;
    if (VD->isConstexpr()) o["constexpr"] = true;
    if (VD->getInit()) o["init"] = D.expr(VD->getInit());
    Globs.push_back(std::move(o));
    return true;
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C, &CI.getSema());
    Collect V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object o;
    auto &SM = C.getSourceManager();
    o["tu"] = SM.getFileEntryForID(SM.getMainFileID())->getName().str();
    o["functions"] = std::move(V.Fns);
    o["records"] = std::move(V.Recs);
    o["globals"] = std::move(V.Globs);
    o["types"] = std::move(D.Types);
    llvm::outs() << Value(std::move(o)) << "\n";
    llvm::outs().flush();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
struct Factory : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
} // namespace

int main(int argc, char **argv) {
  if (argc < 4) { llvm::errs() << "usage: extract REPO DBDIR FILE...\n"; return 2; }
  RepoRoot = argv[1];
  std::string err;
  auto DB = tooling::CompilationDatabase::loadFromDirectory(argv[2], err);
  if (!DB) { llvm::errs() << err << "\n"; return 2; }
  std::vector<std::string> files(argv + 3, argv + argc);
  tooling::ClangTool T(*DB, files);
  T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster(
      {"-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w", "-Wno-everything"}, tooling::ArgumentInsertPosition::END));
  Factory F;
  return T.run(&F);
}
