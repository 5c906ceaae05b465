// Extractor: parses one translation unit with clang and writes the resolved program
// (every function defined in the analysed roots, with resolved callees, implicit
// conversions, template instantiations and inferred types) as JSON.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

class Emitter : public RecursiveASTVisitor<Emitter>
{
public:
  explicit Emitter(ASTContext & C)
  : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), NameGen(C)
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    MainTag = "";
    if (auto fe = SM.getFileEntryRefForID(SM.getMainFileID())) {MainTag = fe->getName().str();}
  }

  bool shouldVisitTemplateInstantiations() const {return true;}
  bool shouldVisitImplicitCode() const {return false;}
  bool shouldVisitLambdaBody() const {return true;}

  std::string fileOf(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) {return "";}
    std::string s = P.getFilename();
    return s;
  }
  int lineOf(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    return SM.getExpansionLineNumber(L);
  }
  bool inRoots(SourceLocation L)
  {
    std::string f = fileOf(L);
    for (auto & r : Roots) {
      if (f.compare(0, r.size(), r) == 0) {return true;}
    }
    return false;
  }

  // ---------------------------------------------------------------- types
  std::map<std::string, int> TypeIds;
  json::Array Types;
  std::map<const void *, int> TypeCache;

  json::Value targ(const TemplateArgument & A)
  {
    switch (A.getKind()) {
      case TemplateArgument::Type: return json::Object{{"T", type(A.getAsType())}};
      case TemplateArgument::Integral:
        {
          llvm::SmallString<32> s; A.getAsIntegral().toString(s, 10);
          return json::Object{{"I", std::string(s.str())}};
        }
      case TemplateArgument::Pack:
        {
          json::Array a;
          for (auto & x : A.pack_elements()) {a.push_back(targ(x));}
          return json::Object{{"P", std::move(a)}};
        }
      default: return json::Object{{"O", 1}};
    }
  }

  int type(QualType Q)
  {
    if (Q.isNull()) {return -1;}
    QualType C = Q.getCanonicalType();
    auto it0 = TypeCache.find(C.getAsOpaquePtr());
    if (it0 != TypeCache.end()) {return it0->second;}
    std::string s;
    bool isEigenExpr = false;
    QualType U = C.getUnqualifiedType();
    if (const auto * RT = U->getAs<RecordType>()) {
      std::string q = RT->getDecl()->getQualifiedNameAsString();
      if (q.rfind("Eigen::", 0) == 0 && q != "Eigen::Matrix" && q != "Eigen::Array" &&
        q != "Eigen::Quaternion" && q != "Eigen::Transform" && q != "Eigen::AngleAxis")
      {
        isEigenExpr = true;
        s = std::string(C.isConstQualified() ? "const " : "") + q + "<...>#" +
          std::to_string(TypeIds.size());
      }
    }
    if (!isEigenExpr) {s = C.getAsString(PP);}
    auto it = TypeIds.find(s);
    if (it != TypeIds.end()) {TypeCache[C.getAsOpaquePtr()] = it->second; return it->second;}
    int id = TypeIds.size();
    TypeIds[s] = id;
    TypeCache[C.getAsOpaquePtr()] = id;
    Types.push_back(json::Object{});
    json::Object o;
    o["s"] = s;
    if (C.isConstQualified()) {o["const"] = true;}
    if (U->isReferenceType()) {
      o["k"] = "ref"; o["to"] = type(U->getPointeeType());
      if (U->isRValueReferenceType()) {o["rv"] = true;}
    } else if (U->isPointerType()) {
      o["k"] = "ptr"; o["to"] = type(U->getPointeeType());
    } else if (const auto * BT = U->getAs<BuiltinType>()) {
      o["k"] = "b";
      if (U->isBooleanType()) {o["b"] = "bool";} else if (U->isFloatingType()) {
        o["b"] = "float"; o["bits"] = (int64_t)Ctx.getTypeSize(U);
      } else if (U->isIntegerType()) {
        o["b"] = "int"; o["bits"] = (int64_t)Ctx.getTypeSize(U);
        o["sg"] = U->isSignedIntegerType();
      } else {o["b"] = "void";}
      (void)BT;
    } else if (const auto * ET = U->getAs<EnumType>()) {
      o["k"] = "enum"; o["name"] = ET->getDecl()->getQualifiedNameAsString();
      json::Array vals;
      for (auto * e : ET->getDecl()->enumerators()) {
        llvm::SmallString<32> v; e->getInitVal().toString(v, 10);
        vals.push_back(json::Array{e->getNameAsString(), std::string(v.str())});
      }
      o["vals"] = std::move(vals);
    } else if (const auto * RT = U->getAs<RecordType>()) {
      o["k"] = "rec";
      o["name"] = RT->getDecl()->getQualifiedNameAsString();
      std::string us = isEigenExpr ? s : U.getAsString(PP);
      o["us"] = us;
      if (const auto * CR = dyn_cast<CXXRecordDecl>(RT->getDecl())) {
        if (CR->isLambda()) {o["lambda"] = true;}
        if (const auto * TS = dyn_cast<ClassTemplateSpecializationDecl>(CR)) {
          if (!isEigenExpr || o["name"] == json::Value("Eigen::Block") ||
            llvm::StringRef(RT->getDecl()->getQualifiedNameAsString()).ends_with("Base"))
          {
            json::Array a;
            for (auto & x : TS->getTemplateArgs().asArray()) {a.push_back(targ(x));}
            o["args"] = std::move(a);
          }
        }
        if (isEigenExpr) {
          // Compile-time dimensions of expression templates, when they can be read off.
          readDims(CR, o);
        }
        if (CR->hasDefinition() && inRoots(CR->getLocation())) {o["repo"] = true; record(CR, U);}
      }
    } else if (const auto * AT = Ctx.getAsConstantArrayType(U)) {
      o["k"] = "arr"; o["of"] = type(AT->getElementType());
      o["n"] = (int64_t)AT->getSize().getZExtValue();
    } else {
      o["k"] = "other";
    }
    Types[id] = std::move(o);
    return id;
  }

  void readDims(const CXXRecordDecl * CR, json::Object & o)
  {
    (void)CR; (void)o;
  }

  // ---------------------------------------------------------------- records
  std::set<const CXXRecordDecl *> RecDone;
  json::Array Records;
  void record(const CXXRecordDecl * R, QualType T)
  {
    R = R->getDefinition();
    if (!R || !RecDone.insert(R).second) {return;}
    json::Object o;
    QualType CT = Ctx.getRecordType(R).getCanonicalType();
    o["s"] = CT.getAsString(PP);
    o["name"] = R->getQualifiedNameAsString();
    o["file"] = fileOf(R->getLocation());
    o["line"] = lineOf(R->getLocation());
    json::Array fs;
    size_t slot = Records.size();
    Records.push_back(json::Object{});
    for (auto * f : R->fields()) {
      json::Object fo{{"n", f->getNameAsString()}, {"t", type(f->getType())},
        {"line", lineOf(f->getLocation())}};
      if (f->hasInClassInitializer() && f->getInClassInitializer() &&
        !f->getInClassInitializer()->isTypeDependent() &&
        !f->getInClassInitializer()->isValueDependent())
      {
        fo["init"] = expr(f->getInClassInitializer());
      }
      if (f->isMutable()) {fo["mutable"] = true;}
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array bs;
    for (auto & b : R->bases()) {bs.push_back(type(b.getType()));}
    o["bases"] = std::move(bs);
    if (R->isUnion()) {o["union"] = true;}
    if (R->isPolymorphic()) {o["poly"] = true;}
    Records[slot] = std::move(o);
  }

  // ---------------------------------------------------------------- names
  // qualified name without template arguments
  static std::string qname(const NamedDecl * D)
  {
    std::string n;
    if (isa<CXXConstructorDecl>(D) || isa<CXXDestructorDecl>(D)) {
      n = cast<CXXRecordDecl>(D->getDeclContext())->getNameAsString();
      if (isa<CXXDestructorDecl>(D)) {n = "~" + n;}
    } else {
      n = D->getNameAsString();
    }
    for (const DeclContext * C = D->getDeclContext(); C; C = C->getParent()) {
      if (auto * N = dyn_cast<NamedDecl>(C)) {
        if (auto * NS = dyn_cast<NamespaceDecl>(C)) {
          if (NS->isAnonymousNamespace()) {continue;}
        }
        if (N->getDeclName()) {n = N->getNameAsString() + "::" + n;}
        else if (isa<CXXRecordDecl>(C)) {n = "(anonymous)::" + n;}
      }
    }
    return n;
  }
  std::map<const Decl *, int> LocalIds;
  int localId(const Decl * D)
  {
    D = D->getCanonicalDecl();
    auto it = LocalIds.find(D);
    if (it != LocalIds.end()) {return it->second;}
    int id = LocalIds.size();
    LocalIds[D] = id;
    return id;
  }

  std::map<const FunctionDecl *, std::string> FnIds;
  std::string fnId(const FunctionDecl * F)
  {
    F = F->getCanonicalDecl();
    auto it = FnIds.find(F);
    if (it != FnIds.end()) {return it->second;}
    std::string id;
    bool isLambda = false;
    if (auto * M = dyn_cast<CXXMethodDecl>(F)) {isLambda = M->getParent()->isLambda();}
    bool localCls = F->getParentFunctionOrMethod() != nullptr;
    if (auto * M = dyn_cast<CXXMethodDecl>(F)) {
      for (const DeclContext * P = M->getParent(); P; P = P->getParent()) {
        if (P->isFunctionOrMethod()) {localCls = true;}
      }
    }
    if (isLambda || localCls) {
      id = MainTag + "#L" + std::to_string(FnIds.size());
    } else {
      if (isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F)) {
        auto v = NameGen.getAllManglings(F);
        id = v.empty() ? NameGen.getName(F) : v[0];
      } else {
        id = NameGen.getName(F);
      }
      if (!F->isExternallyVisible()) {id = MainTag + "#" + id;}
    }
    FnIds[F] = id;
    return id;
  }

  json::Value fnRef(const FunctionDecl * F)
  {
    json::Object o;
    o["id"] = fnId(F);
    std::string q = qname(F);
    o["q"] = q;
    o["n"] = F->getNameAsString();
    if (auto * M = dyn_cast<CXXMethodDecl>(F)) {
      o["mem"] = true;
      if (M->isConst()) {o["cst"] = true;}
      if (M->isStatic()) {o["st"] = true;}
      if (M->isVirtual()) {o["virt"] = true;}
      if (M->isDefaulted()) {o["dflt"] = true;}
      if (M->getParent()->isLambda()) {o["lam"] = true;}
      o["cls"] = type(Ctx.getRecordType(M->getParent()));
      if (isa<CXXConversionDecl>(M)) {o["conv"] = true;}
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) {o["asg"] = true;}
    }
    if (auto * TA = F->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto & x : TA->asArray()) {a.push_back(targ(x));}
      o["targs"] = std::move(a);
    }
    json::Array ps;
    for (auto * p : F->parameters()) {ps.push_back(type(p->getType()));}
    o["pt"] = std::move(ps);
    o["rt"] = type(F->getReturnType());
    const FunctionDecl * Def = nullptr;
    if (F->hasBody(Def) && inRoots(Def->getLocation())) {o["def"] = true; need(Def);}
    else if (inRoots(F->getLocation())) {o["root"] = true;}
    if (F->getBuiltinID()) {o["builtin"] = true;}
    return o;
  }

  // ---------------------------------------------------------------- expressions
  json::Object node(const char * k, const Expr * E)
  {
    json::Object o;
    o["k"] = k;
    o["t"] = type(E->getType());
    o["ln"] = lineOf(E->getExprLoc());
    if (E->isGLValue()) {o["lv"] = true;}
    return o;
  }
  json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r)
  {
    json::Array a;
    for (auto * e : r) {a.push_back(expr(e));}
    return a;
  }

  json::Value castNode(const CastExpr * E)
  {
    const Expr * S = E->getSubExpr();
    switch (E->getCastKind()) {
      case CK_LValueToRValue: {
          auto o = node("load", E); o["e"] = expr(S); return o;
        }
      case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ConstructorConversion:
      case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
        return expr(S);
      case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BaseToDerived:
      case CK_Dynamic: {
          auto o = node("upcast", E); o["e"] = expr(S); return o;
        }
      default: {
          auto o = node("cast", E);
          o["ck"] = E->getCastKindName();
          o["e"] = expr(S);
          return o;
        }
    }
  }

  json::Value expr(const Expr * E)
  {
    if (!E) {return nullptr;}
    switch (E->getStmtClass()) {
      case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
      case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
      case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
      case Stmt::MaterializeTemporaryExprClass: {
          auto o = node("temp", E);
          o["e"] = expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
          return o;
        }
      case Stmt::CXXBindTemporaryExprClass:
        return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
      case Stmt::SubstNonTypeTemplateParmExprClass:
        return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
      case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
      case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
      case Stmt::CXXStdInitializerListExprClass: {
          auto o = node("initlist", E);
          o["e"] = expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
          return o;
        }
      case Stmt::CXXRewrittenBinaryOperatorClass:
        return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
      default: break;
    }
    if (auto * X = dyn_cast<IntegerLiteral>(E)) {
      auto o = node("int", E);
      llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str());
      return o;
    }
    if (auto * X = dyn_cast<FloatingLiteral>(E)) {
      auto o = node("flt", E);
      llvm::SmallString<64> s; X->getValue().toString(s, 0, 0);
      o["v"] = std::string(s.str());
      return o;
    }
    if (auto * X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      auto o = node("bool", E); o["v"] = X->getValue(); return o;
    }
    if (auto * X = dyn_cast<CharacterLiteral>(E)) {
      auto o = node("int", E); o["v"] = std::to_string(X->getValue()); return o;
    }
    if (auto * X = dyn_cast<StringLiteral>(E)) {
      auto o = node("str", E);
      o["v"] = json::fixUTF8(X->isOrdinary() ? X->getString() : llvm::StringRef("?"));
      return o;
    }
    if (isa<PredefinedExpr>(E)) {auto o = node("str", E); o["v"] = "__func__"; return o;}
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {return node("null", E);}
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {return node("zero", E);}
    if (auto * X = dyn_cast<CastExpr>(E)) {return castNode(X);}
    if (auto * X = dyn_cast<DeclRefExpr>(E)) {return declRef(X, X->getDecl());}
    if (auto * X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl * D = X->getMemberDecl();
      if (isa<FieldDecl>(D)) {
        auto o = node("mem", E);
        o["b"] = expr(X->getBase());
        o["n"] = D->getNameAsString();
        if (cast<FieldDecl>(D)->isAnonymousStructOrUnion()) {o["anon"] = true;}
        if (X->isArrow()) {o["arrow"] = true;}
        return o;
      }
      if (auto * V = dyn_cast<VarDecl>(D)) {return declRef(E, V);}
      if (auto * F = dyn_cast<FunctionDecl>(D)) {
        auto o = node("boundfn", E); o["fn"] = fnRef(F); o["b"] = expr(X->getBase());
        return o;
      }
      if (isa<EnumConstantDecl>(D)) {return declRef(E, D);}
    }
    if (isa<CXXThisExpr>(E)) {return node("this", E);}
    if (auto * X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto o = node("ocall", E);
      o["op"] = getOperatorSpelling(X->getOperator());
      if (auto * F = X->getDirectCallee()) {o["fn"] = fnRef(F);}
      o["args"] = exprs(X->arguments());
      return o;
    }
    if (auto * X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = node("mcall", E);
      if (auto * F = X->getMethodDecl()) {
        o["fn"] = fnRef(F);
        const Expr * C = X->getCallee()->IgnoreParens();
        if (auto * ME = dyn_cast<MemberExpr>(C)) {
          o["obj"] = expr(ME->getBase());
          if (ME->isArrow()) {o["arrow"] = true;}
          if (ME->hasQualifier()) {o["qual"] = true;}
        } else {
          o["obj"] = expr(X->getImplicitObjectArgument());
        }
      } else {
        auto p = node("opq", E); p["cls"] = "memptrcall"; return p;
      }
      o["args"] = exprs(X->arguments());
      return o;
    }
    if (auto * X = dyn_cast<UserDefinedLiteral>(E)) {
      auto o = node("call", E);
      if (auto * F = X->getDirectCallee()) {o["fn"] = fnRef(F);}
      o["args"] = exprs(X->arguments());
      return o;
    }
    if (auto * X = dyn_cast<CallExpr>(E)) {
      auto o = node("call", E);
      if (auto * F = X->getDirectCallee()) {o["fn"] = fnRef(F);}
      else {o["callee"] = expr(X->getCallee());}
      o["args"] = exprs(X->arguments());
      return o;
    }
    if (auto * X = dyn_cast<CXXConstructExpr>(E)) {
      auto o = node("ctor", E);
      auto * C = X->getConstructor();
      o["fn"] = fnRef(C);
      if (C->isCopyOrMoveConstructor()) {o["copy"] = true;}
      if (C->isDefaultConstructor()) {o["default"] = true;}
      if (C->isImplicit()) {o["implicit"] = true;}
      if (X->requiresZeroInitialization()) {o["zi"] = true;}
      if (X->isListInitialization()) {o["list"] = true;}
      if (X->isStdInitListInitialization()) {o["stdlist"] = true;}
      json::Array a;
      for (auto * e : X->arguments()) {a.push_back(expr(e));}
      o["args"] = std::move(a);
      return o;
    }
    if (auto * X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      auto o = node("opq", E); o["cls"] = "inhctor"; (void)X; return o;
    }
    if (auto * X = dyn_cast<InitListExpr>(E)) {
      if (X->isSyntacticForm() && X->getSemanticForm()) {X = X->getSemanticForm();}
      if (X->isTransparent() && X->getNumInits() == 1) {return expr(X->getInit(0));}
      auto o = node("init", X);
      json::Array a;
      for (auto * e : X->inits()) {a.push_back(expr(e));}
      o["e"] = std::move(a);
      if (auto * UF = X->getInitializedFieldInUnion()) {o["uf"] = UF->getNameAsString();}
      if (X->getArrayFiller()) {o["fill"] = expr(X->getArrayFiller());}
      return o;
    }
    if (auto * X = dyn_cast<UnaryOperator>(E)) {
      auto o = node("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) {o["post"] = true;}
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto * X = dyn_cast<CompoundAssignOperator>(E)) {
      auto o = node("cas", E);
      o["op"] = BinaryOperator::getOpcodeStr(
        BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str();
      o["l"] = expr(X->getLHS()); o["r"] = expr(X->getRHS());
      o["ct"] = type(X->getComputationResultType());
      return o;
    }
    if (auto * X = dyn_cast<BinaryOperator>(E)) {
      auto o = node("bin", E);
      o["op"] = X->getOpcodeStr().str();
      o["l"] = expr(X->getLHS()); o["r"] = expr(X->getRHS());
      return o;
    }
    if (auto * X = dyn_cast<ConditionalOperator>(E)) {
      auto o = node("cond", E);
      o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr());
      o["b"] = expr(X->getFalseExpr());
      return o;
    }
    if (auto * X = dyn_cast<ArraySubscriptExpr>(E)) {
      auto o = node("idx", E);
      o["b"] = expr(X->getBase()); o["i"] = expr(X->getIdx());
      return o;
    }
    if (auto * X = dyn_cast<LambdaExpr>(E)) {
      auto o = node("lambda", E);
      CXXRecordDecl * R = X->getLambdaClass();
      json::Array ops;
      if (X->isGenericLambda()) {
        if (auto * FT = R->getLambdaCallOperator()->getDescribedFunctionTemplate()) {
          for (auto * s : FT->specializations()) {ops.push_back(fnRef(s));}
        }
      } else {
        ops.push_back(fnRef(R->getLambdaCallOperator()));
      }
      o["ops"] = std::move(ops);
      json::Array caps;
      auto ci = X->capture_init_begin();
      for (auto & c : X->captures()) {
        json::Object co;
        if (c.capturesThis()) {co["this"] = true;}
        else if (c.capturesVariable()) {
          auto * V = c.getCapturedVar();
          co["id"] = localId(V);
          if (c.getCaptureKind() == LCK_ByRef) {co["ref"] = true;}
          if (auto * VD = dyn_cast<VarDecl>(V)) {
            if (VD->isInitCapture()) {co["init"] = expr(VD->getInit());}
          }
          if (isa<BindingDecl>(V)) {co["binding"] = true;}
        }
        caps.push_back(std::move(co));
        ++ci;
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (auto * X = dyn_cast<CXXNewExpr>(E)) {
      auto o = node("new", E);
      o["of"] = type(X->getAllocatedType());
      if (X->isArray()) {o["arr"] = true;}
      if (X->getInitializer()) {o["init"] = expr(X->getInitializer());}
      return o;
    }
    if (auto * X = dyn_cast<CXXDeleteExpr>(E)) {
      auto o = node("delete", E); o["e"] = expr(X->getArgument()); return o;
    }
    if (auto * X = dyn_cast<CXXThrowExpr>(E)) {
      auto o = node("throw", E);
      if (X->getSubExpr()) {
        o["e"] = expr(X->getSubExpr());
        o["tt"] = type(X->getSubExpr()->getType());
      }
      return o;
    }
    if (isa<UnaryExprOrTypeTraitExpr>(E) || isa<TypeTraitExpr>(E) || isa<SizeOfPackExpr>(E) ||
      isa<CXXNoexceptExpr>(E))
    {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, Ctx)) {
        auto o = node("int", E);
        llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
        o["v"] = std::string(s.str());
        return o;
      }
    }
    auto o = node("opq", E);
    o["cls"] = E->getStmtClassName();
    json::Array a;
    for (auto * c : E->children()) {
      if (auto * ce = dyn_cast_or_null<Expr>(c)) {a.push_back(expr(ce));}
    }
    o["args"] = std::move(a);
    return o;
  }

  std::set<const VarDecl *> GlobDone;
  json::Array Globals;
  void global(const VarDecl * V)
  {
    V = V->getCanonicalDecl();
    if (!GlobDone.insert(V).second) {return;}
    json::Object o;
    o["q"] = V->getQualifiedNameAsString();
    o["t"] = type(V->getType());
    o["file"] = fileOf(V->getLocation());
    o["line"] = lineOf(V->getLocation());
    const VarDecl * D = nullptr;
    const Expr * I = V->getAnyInitializer(D);
    if (I && inRoots(V->getLocation()) && !I->isValueDependent() && !I->isTypeDependent()) {
      o["init"] = expr(I);
    }
    Globals.push_back(std::move(o));
  }

  json::Value declRef(const Expr * E, const ValueDecl * D)
  {
    if (auto * EC = dyn_cast<EnumConstantDecl>(D)) {
      auto o = node("int", E);
      llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
      o["v"] = std::string(s.str());
      o["en"] = EC->getNameAsString();
      return o;
    }
    if (auto * F = dyn_cast<FunctionDecl>(D)) {
      auto o = node("fnref", E); o["fn"] = fnRef(F); return o;
    }
    if (auto * B = dyn_cast<BindingDecl>(D)) {
      auto o = node("binding", E);
      o["id"] = localId(B);
      o["n"] = B->getNameAsString();
      return o;
    }
    if (auto * V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage() && !V->isStaticLocal()) {
        auto o = node("gvar", E);
        o["q"] = V->getQualifiedNameAsString();
        global(V);
        Expr::EvalResult R;
        if (V->getType().isConstQualified() && V->getAnyInitializer() &&
          !V->getAnyInitializer()->isValueDependent() && V->getType()->isIntegralOrEnumerationType())
        {
          const VarDecl * D = nullptr;
          const Expr * E = V->getAnyInitializer(D);
          if (auto * val = (E && D && !E->isTypeDependent() && !D->isInvalidDecl() && !E->containsErrors() && D->isUsableInConstantExpressions(Ctx)) ? D->evaluateValue() : nullptr) {
            if (val->isInt()) {
              llvm::SmallString<32> s; val->getInt().toString(s, 10);
              o["cv"] = std::string(s.str());
            }
          }
        }
        return o;
      }
      auto o = node("var", E);
      o["id"] = localId(V);
      o["n"] = V->getNameAsString();
      return o;
    }
    auto o = node("opq", E);
    o["cls"] = "declref";
    o["n"] = D->getNameAsString();
    return o;
  }

  // ---------------------------------------------------------------- statements
  json::Value varDecl(const VarDecl * V)
  {
    json::Object o;
    o["id"] = localId(V);
    o["n"] = V->getNameAsString();
    o["t"] = type(V->getType());
    o["ln"] = lineOf(V->getLocation());
    if (V->getInit()) {o["init"] = expr(V->getInit());}
    if (V->isStaticLocal()) {o["static"] = true;}
    if (auto * DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array bs;
      for (auto * b : DD->bindings()) {
        json::Object bo;
        bo["id"] = localId(b);
        bo["n"] = b->getNameAsString();
        if (auto * HV = b->getHoldingVar()) {
          bo["e"] = expr(HV->getInit());
          bo["t"] = type(HV->getType());
        } else if (b->getBinding()) {
          bo["e"] = expr(b->getBinding());
          bo["field"] = true;
        }
        bs.push_back(std::move(bo));
      }
      o["bindings"] = std::move(bs);
    }
    return o;
  }

  json::Value stmt(const Stmt * S)
  {
    if (!S) {return nullptr;}
    if (auto * E = dyn_cast<Expr>(S)) {
      return json::Object{{"k", "expr"}, {"e", expr(E)}, {"ln", lineOf(S->getBeginLoc())}};
    }
    json::Object o;
    o["ln"] = lineOf(S->getBeginLoc());
    if (auto * X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block";
      json::Array a;
      for (auto * c : X->body()) {a.push_back(stmt(c));}
      o["b"] = std::move(a);
    } else if (auto * X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      json::Array a;
      for (auto * d : X->decls()) {
        if (auto * V = dyn_cast<VarDecl>(d)) {a.push_back(varDecl(V));}
      }
      o["d"] = std::move(a);
    } else if (auto * X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if";
      if (X->getInit()) {o["init"] = stmt(X->getInit());}
      if (X->getConditionVariableDeclStmt()) {o["cv"] = stmt(X->getConditionVariableDeclStmt());}
      if (X->isConstexpr()) {
        auto nd = X->getNondiscardedCase(Ctx);
        if (nd) {
          o["k"] = "block";
          json::Array a;
          if (*nd) {a.push_back(stmt(*nd));}
          o["b"] = std::move(a);
          return o;
        }
      }
      o["c"] = expr(X->getCond());
      o["a"] = stmt(X->getThen());
      if (X->getElse()) {o["b"] = stmt(X->getElse());}
    } else if (auto * X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for";
      o["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt()) {o["cv"] = stmt(X->getConditionVariableDeclStmt());}
      o["c"] = expr(X->getCond());
      o["inc"] = expr(X->getInc());
      o["b"] = stmt(X->getBody());
    } else if (auto * X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "for";
      if (X->getConditionVariableDeclStmt()) {o["cv"] = stmt(X->getConditionVariableDeclStmt());}
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
    } else if (auto * X = dyn_cast<DoStmt>(S)) {
      o["k"] = "do";
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
    } else if (auto * X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor";
      if (X->getInit()) {o["init"] = stmt(X->getInit());}
      const VarDecl * RV = cast<VarDecl>(X->getRangeStmt()->getSingleDecl());
      o["range"] = expr(RV->getInit());
      o["rt"] = type(RV->getType());
      o["var"] = varDecl(X->getLoopVariable());
      o["b"] = stmt(X->getBody());
    } else if (auto * X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret";
      if (X->getRetValue()) {o["e"] = expr(X->getRetValue());}
    } else if (isa<BreakStmt>(S)) {
      o["k"] = "break";
    } else if (isa<ContinueStmt>(S)) {
      o["k"] = "cont";
    } else if (isa<NullStmt>(S)) {
      o["k"] = "block"; o["b"] = json::Array{};
    } else if (auto * X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch";
      if (X->getInit()) {o["init"] = stmt(X->getInit());}
      if (X->getConditionVariableDeclStmt()) {o["cv"] = stmt(X->getConditionVariableDeclStmt());}
      o["e"] = expr(X->getCond());
      json::Array a;
      std::function<void(const Stmt *)> flat = [&](const Stmt * s) {
          if (auto * cs = dyn_cast<CaseStmt>(s)) {
            json::Object c{{"k", "case"}, {"v", expr(cs->getLHS())}};
            Expr::EvalResult R;
            if (cs->getLHS()->EvaluateAsInt(R, Ctx)) {
              llvm::SmallString<32> v; R.Val.getInt().toString(v, 10);
              c["cv"] = std::string(v.str());
            }
            a.push_back(std::move(c));
            flat(cs->getSubStmt());
          } else if (auto * ds = dyn_cast<DefaultStmt>(s)) {
            a.push_back(json::Object{{"k", "default"}});
            flat(ds->getSubStmt());
          } else {
            a.push_back(stmt(s));
          }
        };
      if (auto * CS = dyn_cast<CompoundStmt>(X->getBody())) {
        for (auto * c : CS->body()) {flat(c);}
      } else {flat(X->getBody());}
      o["b"] = std::move(a);
    } else if (auto * X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try";
      o["b"] = stmt(X->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        auto * H = X->getHandler(i);
        json::Object h;
        if (H->getExceptionDecl()) {
          h["t"] = type(H->getCaughtType());
          h["var"] = localId(H->getExceptionDecl());
        }
        h["b"] = stmt(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
    } else if (auto * X = dyn_cast<AttributedStmt>(S)) {
      return stmt(X->getSubStmt());
    } else {
      o["k"] = "opqs";
      o["cls"] = S->getStmtClassName();
    }
    return o;
  }

  // ---------------------------------------------------------------- functions
  std::set<const FunctionDecl *> Done;
  std::vector<const FunctionDecl *> Pending;
  json::Array Funs;
  void need(const FunctionDecl * Def) {Pending.push_back(Def);}

  void emitFn(const FunctionDecl * F)
  {
    if (F->isDependentContext() || F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) {
      return;
    }
    const FunctionDecl * Def = nullptr;
    if (!F->hasBody(Def)) {return;}
    if (!Done.insert(Def).second) {return;}
    F = Def;
    json::Object o;
    o["id"] = fnId(F);
    o["q"] = qname(F);
    o["n"] = F->getNameAsString();
    o["file"] = fileOf(F->getLocation());
    o["line"] = lineOf(F->getLocation());
    o["end"] = lineOf(F->getEndLoc());
    o["rt"] = type(F->getReturnType());
    if (F->isDefaulted()) {o["dflt"] = true;}
    if (auto * M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = type(Ctx.getRecordType(M->getParent()));
      if (M->isStatic()) {o["st"] = true;}
      if (M->isConst()) {o["cst"] = true;}
      if (M->getAccess() != AS_public) {o["hidden"] = true;}
      if (M->isVirtual()) {
        o["virt"] = true;
        json::Array ov;
        for (auto * b : M->overridden_methods()) {ov.push_back(fnId(b));}
        o["ov"] = std::move(ov);
      }
      if (M->getParent()->isLambda()) {o["lam"] = true;}
    }
    if (auto * TA = F->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto & x : TA->asArray()) {a.push_back(targ(x));}
      o["targs"] = std::move(a);
    }
    json::Array ps;
    for (auto * p : F->parameters()) {
      ps.push_back(json::Object{{"id", localId(p)}, {"n", p->getNameAsString()},
          {"t", type(p->getType())}});
    }
    o["ps"] = std::move(ps);
    if (auto * C = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      json::Array is;
      for (auto * i : C->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) {
          if (i->getAnyMember()) {io["f"] = i->getAnyMember()->getNameAsString();}
        } else if (i->isBaseInitializer()) {
          io["base"] = type(QualType(i->getBaseClass(), 0));
        } else {io["deleg"] = true;}
        io["written"] = i->isWritten();
        io["e"] = expr(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    size_t slot = Funs.size();
    Funs.push_back(json::Object{});
    o["body"] = stmt(F->getBody());
    Funs[slot] = std::move(o);
  }

  bool VisitFunctionDecl(FunctionDecl * F)
  {
    if (!F->isThisDeclarationADefinition()) {return true;}
    if (!inRoots(F->getLocation())) {return true;}
    emitFn(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl * R)
  {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) {
      return true;
    }
    if (!inRoots(R->getLocation())) {return true;}
    record(R, Ctx.getRecordType(R));
    return true;
  }
  bool VisitVarDecl(VarDecl * V)
  {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && inRoots(V->getLocation()) &&
      !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType())
    {
      global(V);
    }
    return true;
  }

  void run()
  {
    TraverseDecl(Ctx.getTranslationUnitDecl());
    while (!Pending.empty()) {
      auto * F = Pending.back();
      Pending.pop_back();
      emitFn(F);
    }
  }

  ASTContext & Ctx;
  SourceManager & SM;
  PrintingPolicy PP;
  ASTNameGenerator NameGen;
  std::string MainTag;
};

class Consumer : public ASTConsumer
{
public:
  void HandleTranslationUnit(ASTContext & C) override
  {
    if (C.getDiagnostics().hasErrorOccurred()) {return;}
    Emitter E(C);
    E.run();
    json::Object o;
    o["main"] = E.MainTag;
    o["types"] = std::move(E.Types);
    o["records"] = std::move(E.Records);
    o["globals"] = std::move(E.Globals);
    o["funs"] = std::move(E.Funs);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    os << json::Value(std::move(o));
  }
};

class Action : public ASTFrontendAction
{
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, const char ** argv)
{
  // extract OUT ROOT[:ROOT...] SOURCE -- flags
  if (argc < 5) {llvm::errs() << "usage\n"; return 3;}
  OutPath = argv[1];
  std::string r = argv[2];
  size_t p = 0;
  while (p <= r.size()) {
    size_t q = r.find(':', p);
    if (q == std::string::npos) {q = r.size();}
    if (q > p) {Roots.push_back(r.substr(p, q - p));}
    p = q + 1;
  }
  std::string src = argv[3];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; i++) {
    if (std::string(argv[i]) != "--") {flags.push_back(argv[i]);}
  }
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
