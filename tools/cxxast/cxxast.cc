// cxxast: dumps the typed, fully resolved AST of selected functions (and everything they reach inside
// the configured source prefixes) as JSON.  Usage: cxxast -p-prefix <dir>[,<dir>] -roots <regex> file.cc -- flags
#include <map>
#include <set>
#include <deque>
#include <string>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
using namespace clang;
namespace json = llvm::json;
static llvm::cl::OptionCategory Cat("cxxast");
static llvm::cl::opt<std::string> Roots("roots", llvm::cl::desc("regex on qualified names"), llvm::cl::init(".*"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Prefixes("prefixes", llvm::cl::desc("comma separated path prefixes"), llvm::cl::init("/repo/,/verif/units/"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("o", llvm::cl::desc("output"), llvm::cl::init("-"), llvm::cl::cat(Cat));

class Dumper {
 public:
  ASTContext& C; SourceManager& SM;
  std::vector<std::string> prefixes;
  json::Array types, funcs, vars; json::Object records;
  std::map<std::string, int> typeIds;         // by canonical printed string
  std::map<const FunctionDecl*, int> funIds; std::deque<const FunctionDecl*> work; std::set<const FunctionDecl*> queued;
  std::map<const VarDecl*, int> varIds;
  std::map<int, json::Object> bodies;
  std::set<std::string> recDone;
  PrintingPolicy PP;
  Dumper(ASTContext& C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    llvm::SmallVector<llvm::StringRef, 4> parts; llvm::StringRef(Prefixes).split(parts, ',');
    for (auto p : parts) prefixes.push_back(p.str());
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::StringRef r = F->getFileEntry().tryGetRealPathName();
    return r.empty() ? F->getName().str() : r.str();
  }
  bool inScope(SourceLocation L) {
    std::string f = fileOf(L);
    for (auto& p : prefixes) if (f.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  json::Array targs(llvm::ArrayRef<TemplateArgument> args) {
    json::Array a;
    for (auto& A : args) {
      switch (A.getKind()) {
        case TemplateArgument::Type: a.push_back(json::Object{{"t", type(A.getAsType())}}); break;
        case TemplateArgument::Integral: { llvm::APSInt v = A.getAsIntegral(); llvm::SmallString<32> s; v.toString(s, 10); a.push_back(json::Object{{"i", s.str().str()}}); break; }
        case TemplateArgument::Pack: for (auto& x : targs(A.pack_elements())) a.push_back(std::move(x)); break;
        default: a.push_back(json::Object{{"x", "?"}});
      }
    }
    return a;
  }
  int type(QualType Q) {
    Q = C.getCanonicalType(Q);
    bool cst = Q.isConstQualified();
    QualType U = Q.getUnqualifiedType();
    std::string key = (cst ? "c " : "") + U.getAsString(PP);
    if (auto* RT = U->getAs<RecordType>()) { char b[32]; snprintf(b, 32, "#%p", (void*)RT->getDecl()->getCanonicalDecl()); key += b; }
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int id = types.size(); typeIds[key] = id; types.push_back(nullptr);
    json::Object o; if (cst) o["c"] = 1;
    const Type* T = U.getTypePtr();
    if (auto* BT = dyn_cast<BuiltinType>(T)) {
      if (BT->isVoidType()) o["k"] = "void";
      else if (BT->getKind() == BuiltinType::Bool) { o["k"] = "bool"; }
      else if (BT->isInteger()) { o["k"] = "int"; o["w"] = (int)C.getTypeSize(U); o["s"] = BT->isSignedInteger() ? 1 : 0; o["n"] = U.getAsString(PP); }
      else if (BT->isFloatingPoint()) { o["k"] = "fp"; o["w"] = (int)C.getTypeSize(U); }
      else if (BT->isNullPtrType()) o["k"] = "nullptr";
      else { o["k"] = "other"; o["n"] = U.getAsString(PP); }
    } else if (auto* ET = dyn_cast<EnumType>(T)) {
      o["k"] = "enum"; o["n"] = ET->getDecl()->getQualifiedNameAsString();
      QualType I = ET->getDecl()->getIntegerType();
      o["w"] = I.isNull() ? 32 : (int)C.getTypeSize(I); o["s"] = !I.isNull() && I->isSignedIntegerType() ? 1 : 0;
    } else if (auto* PT = dyn_cast<PointerType>(T)) { o["k"] = "ptr"; o["e"] = type(PT->getPointeeType()); }
    else if (auto* RT = dyn_cast<ReferenceType>(T)) { o["k"] = "ref"; o["rv"] = RT->isRValueReferenceType() ? 1 : 0; o["e"] = type(RT->getPointeeType()); }
    else if (auto* AT = dyn_cast<ConstantArrayType>(T)) { o["k"] = "arr"; o["e"] = type(AT->getElementType()); o["n"] = (int64_t)AT->getSize().getZExtValue(); }
    else if (auto* VT = dyn_cast<VectorType>(T)) { o["k"] = "vec"; o["e"] = type(VT->getElementType()); o["n"] = (int)VT->getNumElements(); }
    else if (auto* RT = dyn_cast<RecordType>(T)) {
      const RecordDecl* RD = RT->getDecl();
      o["k"] = "rec"; std::string qn = RD->getQualifiedNameAsString();
      if (auto* CRD = dyn_cast<CXXRecordDecl>(RD)) {
        if (CRD->isLambda()) { qn = "lambda@" + std::to_string(line(RD->getLocation())); o["lambda"] = 1; }
        if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(CRD)) o["a"] = targs(S->getTemplateArgs().asArray());
      }
      o["n"] = qn; o["rid"] = id;
      types[id] = json::Object(o);
      if (RD->getDefinition() && inScope(RD->getLocation())) record(cast<CXXRecordDecl>(RD->getDefinition()), id);
      else if (auto* D = dyn_cast_or_null<CXXRecordDecl>(RD->getDefinition())) {
        json::Array b; for (auto& B : D->bases()) if (!B.getType()->isDependentType()) b.push_back(type(B.getType()));
        o["b"] = std::move(b);
      }
    } else if (isa<FunctionType>(T)) { o["k"] = "fn"; o["n"] = U.getAsString(PP); }
    else if (isa<MemberPointerType>(T)) { o["k"] = "memptr"; o["n"] = U.getAsString(PP); }
    else { o["k"] = "other"; o["n"] = U.getAsString(PP); }
    types[id] = std::move(o);
    return id;
  }
  void record(const CXXRecordDecl* RD, int id) {
    std::string key = std::to_string(id);
    if (!recDone.insert(key).second) return;
    json::Object o; o["n"] = RD->getQualifiedNameAsString(); o["file"] = fileOf(RD->getLocation()); o["union"] = RD->isUnion();
    json::Array bases;
    for (auto& B : RD->bases()) bases.push_back(type(B.getType()));
    o["bases"] = std::move(bases);
    json::Array fs;
    for (auto* F : RD->fields()) {
      json::Object f{{"n", F->getNameAsString()}, {"t", type(F->getType())}, {"m", F->isMutable()}};
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    // destructor, for scope exit effects
    if (auto* D = RD->getDestructor()) { if (D->isUserProvided()) o["dtor"] = fun(D); }
    json::Array vm;
    for (auto* M : RD->methods()) if (M->isVirtual() && !isa<CXXDestructorDecl>(M)) {
      json::Array ov; for (auto* O : M->overridden_methods()) ov.push_back(fun(O));
      vm.push_back(json::Object{{"f", fun(M)}, {"n", M->getNameAsString()}, {"over", std::move(ov)}, {"pure", M->isPureVirtual()}});
    }
    o["virt"] = std::move(vm);
    records[key] = std::move(o);
  }
  const FunctionDecl* defOf(const FunctionDecl* F) {
    const FunctionDecl* D = nullptr;
    if (F->hasBody(D) || F->isDefined(D)) return D;
    return nullptr;
  }
  int fun(const FunctionDecl* F) {
    F = F->getCanonicalDecl();
    auto it = funIds.find(F); if (it != funIds.end()) return it->second;
    int id = funcs.size(); funIds[F] = id; funcs.push_back(nullptr);
    json::Object o;
    o["n"] = F->getQualifiedNameAsString(); o["s"] = F->getNameAsString();
    o["ret"] = type(F->getReturnType());
    json::Array ps; for (auto* P : F->parameters()) ps.push_back(type(P->getType())); o["pt"] = std::move(ps);
    if (auto* TA = F->getTemplateSpecializationArgs()) o["ta"] = targs(TA->asArray());
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = type(C.getRecordType(M->getParent())); o["static"] = M->isStatic(); o["virt"] = M->isVirtual(); o["const"] = M->isConst();
      o["ctor"] = isa<CXXConstructorDecl>(M); o["dtor"] = isa<CXXDestructorDecl>(M); o["conv"] = isa<CXXConversionDecl>(M);
      if (auto* K = dyn_cast<CXXConstructorDecl>(M)) { o["copy"] = K->isCopyConstructor(); o["move"] = K->isMoveConstructor(); }
      o["casg"] = M->isCopyAssignmentOperator(); o["masg"] = M->isMoveAssignmentOperator();
      o["up"] = M->isUserProvided();
    }
    if (F->isVariadic()) o["variadic"] = true;
    const FunctionDecl* D = defOf(F);
    const FunctionDecl* L = D ? D : F;
    o["file"] = fileOf(L->getLocation()); o["line"] = line(L->getLocation());
    o["builtin"] = (int)F->getBuiltinID();
    bool scope = D && inScope(L->getLocation());
    // an instantiation's body may come from the pattern's location
    o["hasbody"] = scope;
    funcs[id] = std::move(o);
    if (scope && queued.insert(F).second) work.push_back(F);
    return id;
  }
  int var(const VarDecl* V) {
    const VarDecl* K = V->getCanonicalDecl();
    auto it = varIds.find(K); if (it != varIds.end()) return it->second;
    int id = vars.size(); varIds[K] = id; vars.push_back(nullptr);
    json::Object o; o["n"] = V->isLocalVarDecl() || isa<ParmVarDecl>(V) ? V->getNameAsString() : V->getQualifiedNameAsString();
    o["t"] = type(V->getType()); o["line"] = line(V->getLocation());
    o["global"] = V->hasGlobalStorage() && !V->isLocalVarDecl(); o["static"] = V->isStaticLocal();
    const VarDecl* DV = nullptr; const Expr* I = V->getAnyInitializer(DV);
    if (V->hasGlobalStorage() || V->isConstexpr()) {
      if (I && DV && !I->isValueDependent() && (V->getType().isConstQualified() || V->isConstexpr())) {
        if (const APValue* A = DV->evaluateValue()) { json::Value v = apv(*A); if (v.kind() != json::Value::Null) o["cv"] = std::move(v); }
      }
      if (I && inScope(V->getLocation()) && !I->isValueDependent() ) { vars[id] = json::Object(o); o["init"] = expr(I); }
    }
    vars[id] = std::move(o);
    return id;
  }
  json::Value apv(const APValue& A) {
    if (A.isInt()) { llvm::SmallString<32> s; A.getInt().toString(s, 10); return json::Object{{"i", s.str().str()}}; }
    if (A.isFloat()) { return json::Object{{"f", fl(A.getFloat())}}; }
    if (A.isArray()) { json::Array a; unsigned n = A.getArraySize(), m = A.getArrayInitializedElts();
      if (n > 4096) return nullptr;
      for (unsigned i = 0; i < n; ++i) { json::Value v = apv(i < m ? A.getArrayInitializedElt(i) : A.getArrayFiller()); if (v.kind() == json::Value::Null) return nullptr; a.push_back(std::move(v)); }
      return json::Object{{"a", std::move(a)}}; }
    return nullptr;
  }
  std::string fl(const llvm::APFloat& f0) { llvm::APFloat f = f0; bool l; f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &l); char b[64]; snprintf(b, 64, "%a", f.convertToDouble()); return b; }

  const Expr* strip(const Expr* E) {
    while (true) {
      if (auto* P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto* P = dyn_cast<FullExpr>(E)) E = P->getSubExpr();
      else if (auto* P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto* P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto* P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto* P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
      else if (auto* P = dyn_cast<ImplicitCastExpr>(E)) { if (P->getCastKind() == CK_NoOp) E = P->getSubExpr(); else break; }
      else if (auto* P = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = P->getSemanticForm();
      else break;
    }
    return E;
  }
  json::Array exprs(llvm::ArrayRef<const Expr*> es) { json::Array a; for (auto* e : es) a.push_back(expr(e)); return a; }

  json::Value expr(const Expr* E0) {
    if (!E0) return nullptr;
    const Expr* E = strip(E0);
    json::Object o; o["t"] = type(E->getType()); if (E->isGLValue()) o["lv"] = 1;
    o["l"] = line(E->getBeginLoc());
    if (auto* L = dyn_cast<IntegerLiteral>(E)) { llvm::SmallString<32> s; L->getValue().toString(s, 10, false); o["k"] = "int"; o["v"] = s.str().str(); return o; }
    if (auto* L = dyn_cast<CharacterLiteral>(E)) { o["k"] = "int"; o["v"] = std::to_string((int)(L->getType()->isSignedIntegerType() ? (int)(int8_t)L->getValue() : (int)L->getValue())); return o; }
    if (auto* L = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "bool"; o["v"] = L->getValue(); return o; }
    if (auto* L = dyn_cast<FloatingLiteral>(E)) { o["k"] = "flt"; o["v"] = fl(L->getValue());
      llvm::StringRef txt = Lexer::getSourceText(CharSourceRange::getTokenRange(L->getSourceRange()), SM, C.getLangOpts()); o["src"] = txt.str(); return o; }
    if (auto* L = dyn_cast<StringLiteral>(E)) { o["k"] = "str"; std::string b; if (L->getCharByteWidth() == 1) b = L->getBytes().str(); json::Array a; for (unsigned char c : b) a.push_back((int)c); o["v"] = std::move(a); return o; }
    if (auto* L = dyn_cast<PredefinedExpr>(E)) { o["k"] = "str"; o["v"] = json::Array(); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; return o; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o["k"] = "zero"; return o; }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return o; }
    // fold integral constants
    if (E->isPRValue() && E->getType()->isIntegralOrEnumerationType() && !E->isValueDependent() && !isa<CallExpr>(E) && !isa<LambdaExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["k"] = E->getType()->isBooleanType() ? "bool" : "int"; if (E->getType()->isBooleanType()) o["v"] = R.Val.getInt().getBoolValue(); else o["v"] = s.str().str(); return o; }
    }
    if (auto* D = dyn_cast<DeclRefExpr>(E)) {
      if (auto* V = dyn_cast<VarDecl>(D->getDecl())) { o["k"] = "var"; o["v"] = var(V); o["n"] = V->getNameAsString(); return o; }
      if (auto* F = dyn_cast<FunctionDecl>(D->getDecl())) { o["k"] = "fun"; o["f"] = fun(F); return o; }
      if (auto* N = dyn_cast<EnumConstantDecl>(D->getDecl())) { llvm::SmallString<32> s; N->getInitVal().toString(s, 10); o["k"] = "int"; o["v"] = s.str().str(); o["n"] = N->getQualifiedNameAsString(); return o; }
      if (auto* B = dyn_cast<BindingDecl>(D->getDecl())) { if (B->getBinding()) return expr(B->getBinding()); }
      o["k"] = "unk"; o["what"] = "declref"; return o;
    }
    if (auto* M = dyn_cast<MemberExpr>(E)) {
      if (auto* V = dyn_cast<VarDecl>(M->getMemberDecl())) { o["k"] = "var"; o["v"] = var(V); o["n"] = V->getNameAsString(); return o; }
      if (auto* F = dyn_cast<FunctionDecl>(M->getMemberDecl())) { o["k"] = "fun"; o["f"] = fun(F); o["b"] = expr(M->getBase()); return o; }
      if (auto* F = dyn_cast<FieldDecl>(M->getMemberDecl())) { o["k"] = "mem"; o["n"] = F->getNameAsString(); o["b"] = expr(M->getBase()); if (M->isArrow()) o["arrow"] = 1; o["rec"] = type(C.getRecordType(F->getParent())); return o; }
      o["k"] = "unk"; o["what"] = "member"; return o;
    }
    if (auto* U = dyn_cast<UnaryOperator>(E)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str(); o["post"] = U->isPostfix(); o["e"] = expr(U->getSubExpr()); return o; }
    if (auto* B = dyn_cast<CompoundAssignOperator>(E)) { o["k"] = "casg"; std::string op = BinaryOperator::getOpcodeStr(B->getOpcode()).str(); op.pop_back(); o["op"] = op; o["a"] = expr(B->getLHS()); o["b"] = expr(B->getRHS()); o["ct"] = type(B->getComputationLHSType()); return o; }
    if (auto* B = dyn_cast<BinaryOperator>(E)) { o["k"] = B->getOpcode() == BO_Assign ? "asg" : "bin"; o["op"] = BinaryOperator::getOpcodeStr(B->getOpcode()).str(); o["a"] = expr(B->getLHS()); o["b"] = expr(B->getRHS()); return o; }
    if (auto* B = dyn_cast<ConditionalOperator>(E)) { o["k"] = "cond"; o["c"] = expr(B->getCond()); o["a"] = expr(B->getTrueExpr()); o["b"] = expr(B->getFalseExpr()); return o; }
    if (auto* A = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "idx"; o["a"] = expr(A->getBase()); o["i"] = expr(A->getIdx()); return o; }
    if (auto* K = dyn_cast<CastExpr>(E)) {
      o["k"] = "cast"; o["ck"] = K->getCastKindName(); o["e"] = expr(K->getSubExpr());
      if (isa<CXXDynamicCastExpr>(K)) o["dyn"] = 1;
      if (auto* F = K->getConversionFunction()) if (auto* FF = dyn_cast<FunctionDecl>(F)) o["f"] = fun(FF);
      return o; }
    if (auto* L = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda"; o["f"] = fun(L->getCallOperator()); json::Array caps; auto ii = L->capture_init_begin();
      for (auto& c : L->captures()) { json::Object q; q["byref"] = c.getCaptureKind() == LCK_ByRef;
        if (c.capturesThis()) q["this"] = 1; else if (c.capturesVariable()) { if (auto* V = dyn_cast<VarDecl>(c.getCapturedVar())) { q["v"] = var(V); q["init"] = expr(*ii); } }
        ++ii; caps.push_back(std::move(q)); }
      o["caps"] = std::move(caps); return o; }
    if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl* F = X->getDirectCallee(); o["k"] = "call"; o["op"] = getOperatorSpelling(X->getOperator());
      json::Array as; unsigned st = 0; bool method = F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
      if (F) o["f"] = fun(F);
      if (method) { o["obj"] = expr(X->getArg(0)); st = 1; }
      for (unsigned i = st; i < X->getNumArgs(); ++i) as.push_back(expr(X->getArg(i)));
      o["args"] = std::move(as); return o; }
    if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "call"; json::Array as;
      if (auto* M = X->getMethodDecl()) { o["f"] = fun(M); o["obj"] = expr(X->getImplicitObjectArgument());
        if (auto* ME = dyn_cast<MemberExpr>(strip(X->getCallee()))) { if (ME->hasQualifier()) o["qual"] = 1; if (ME->isArrow()) o["arrow"] = 1; } }
      else { o["callee"] = expr(X->getCallee()); }
      for (auto* A : X->arguments()) as.push_back(expr(A));
      o["args"] = std::move(as); return o; }
    if (auto* X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call"; json::Array as;
      if (auto* F = X->getDirectCallee()) o["f"] = fun(F); else o["callee"] = expr(X->getCallee());
      for (auto* A : X->arguments()) as.push_back(expr(A));
      o["args"] = std::move(as); return o; }
    if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["k"] = "ctor"; o["f"] = fun(X->getConstructor()); o["inh"] = 1; o["args"] = json::Array(); return o; }
    if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor"; o["f"] = fun(X->getConstructor()); json::Array as; for (auto* A : X->arguments()) as.push_back(expr(A));
      o["args"] = std::move(as); if (X->isElidable()) o["elide"] = 1; if (X->isListInitialization()) o["list"] = 1; if (X->requiresZeroInitialization()) o["zi"] = 1; return o; }
    if (auto* X = dyn_cast<InitListExpr>(E)) { if (X->isSemanticForm() || !X->getSemanticForm()) {} else X = X->getSemanticForm();
      o["k"] = "ilist"; json::Array as; for (auto* A : X->inits()) as.push_back(expr(A)); o["e"] = std::move(as); if (X->hasArrayFiller()) o["fill"] = expr(X->getArrayFiller());
      if (auto* FD = X->getInitializedFieldInUnion()) o["ufield"] = FD->getNameAsString(); return o; }
    if (auto* X = dyn_cast<CXXNewExpr>(E)) { o["k"] = "new"; o["at"] = type(X->getAllocatedType()); if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize()); if (X->getInitializer()) o["init"] = expr(X->getInitializer()); if (X->getNumPlacementArgs()) o["placement"] = 1; return o; }
    if (auto* X = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "del"; o["arr"] = X->isArrayForm(); o["e"] = expr(X->getArgument()); return o; }
    if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) { o["k"] = "temp"; o["e"] = expr(X->getSubExpr()); return o; }
    if (auto* X = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; if (X->getSubExpr()) o["e"] = expr(X->getSubExpr()); return o; }
    if (auto* X = dyn_cast<CXXTypeidExpr>(E)) { o["k"] = "typeid"; if (!X->isTypeOperand()) o["e"] = expr(X->getExprOperand()); else o["of"] = type(X->getTypeOperand(C)); return o; }
    if (auto* X = dyn_cast<StmtExpr>(E)) { o["k"] = "stmtexpr"; o["s"] = stmt(X->getSubStmt()); return o; }
    if (auto* X = dyn_cast<CXXPseudoDestructorExpr>(E)) { o["k"] = "pdtor"; return o; }
    o["k"] = "unk"; o["what"] = E->getStmtClassName(); return o;
  }
  json::Value vardecl(const VarDecl* V) {
    json::Object o; o["v"] = var(V); o["t"] = type(V->getType()); o["n"] = V->getNameAsString();
    if (V->hasInit()) o["init"] = expr(V->getInit()); if (V->isStaticLocal()) o["static"] = 1;
    if (const auto* VA = V->getType()->getAsArrayTypeUnsafe()) if (auto* VL = dyn_cast<VariableArrayType>(VA)) o["vla"] = expr(VL->getSizeExpr());
    return o;
  }
  json::Value stmt(const Stmt* S) {
    if (!S) return nullptr;
    json::Object o; o["l"] = line(S->getBeginLoc());
    if (auto* X = dyn_cast<CompoundStmt>(S)) { o["k"] = "blk"; json::Array a; for (auto* s : X->body()) a.push_back(stmt(s)); o["s"] = std::move(a); return o; }
    if (auto* X = dyn_cast<DeclStmt>(S)) { o["k"] = "decl"; json::Array a; for (auto* d : X->decls()) if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(vardecl(V)); o["d"] = std::move(a); return o; }
    if (auto* X = dyn_cast<IfStmt>(S)) { o["k"] = "if"; if (X->getInit()) o["i"] = stmt(X->getInit()); if (X->getConditionVariable()) o["cv"] = vardecl(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["a"] = stmt(X->getThen()); o["b"] = stmt(X->getElse()); return o; }
    if (auto* X = dyn_cast<WhileStmt>(S)) { o["k"] = "while"; if (X->getConditionVariable()) o["cv"] = vardecl(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["s"] = stmt(X->getBody()); return o; }
    if (auto* X = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = expr(X->getCond()); o["s"] = stmt(X->getBody()); return o; }
    if (auto* X = dyn_cast<ForStmt>(S)) { o["k"] = "for"; o["i"] = stmt(X->getInit()); if (X->getConditionVariable()) o["cv"] = vardecl(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["n"] = expr(X->getInc()); o["s"] = stmt(X->getBody()); return o; }
    if (auto* X = dyn_cast<CXXForRangeStmt>(S)) { o["k"] = "rfor"; o["v"] = vardecl(X->getLoopVariable()); o["r"] = expr(X->getRangeInit()); o["s"] = stmt(X->getBody()); return o; }
    if (auto* X = dyn_cast<ReturnStmt>(S)) { o["k"] = "ret"; if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) { o["k"] = "brk"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"] = "cnt"; return o; }
    if (isa<NullStmt>(S)) { o["k"] = "nop"; return o; }
    if (auto* X = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; o["c"] = expr(X->getCond()); o["s"] = stmt(X->getBody()); return o; }
    if (auto* X = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["e"] = expr(X->getLHS()); o["s"] = stmt(X->getSubStmt()); return o; }
    if (auto* X = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["s"] = stmt(X->getSubStmt()); return o; }
    if (auto* X = dyn_cast<CXXTryStmt>(S)) { o["k"] = "try"; o["s"] = stmt(X->getTryBlock()); json::Array hs; for (unsigned i = 0; i < X->getNumHandlers(); ++i) { json::Object h; auto* H = X->getHandler(i); if (H->getExceptionDecl()) h["v"] = vardecl(H->getExceptionDecl()); h["s"] = stmt(H->getHandlerBlock()); hs.push_back(std::move(h)); } o["h"] = std::move(hs); return o; }
    if (auto* X = dyn_cast<LabelStmt>(S)) { return stmt(X->getSubStmt()); }
    if (auto* X = dyn_cast<AttributedStmt>(S)) { return stmt(X->getSubStmt()); }
    if (auto* X = dyn_cast<Expr>(S)) { o["k"] = "expr"; o["e"] = expr(X); return o; }
    o["k"] = "unk"; o["what"] = S->getStmtClassName(); return o;
  }
  void body(const FunctionDecl* F) {
    const FunctionDecl* D = defOf(F); if (!D) return;
    json::Object o; json::Array ps; for (auto* P : D->parameters()) ps.push_back(vardecl(P)); o["params"] = std::move(ps);
    if (auto* K = dyn_cast<CXXConstructorDecl>(D)) {
      json::Array in;
      for (auto* I : K->inits()) {
        json::Object q; if (I->isBaseInitializer()) q["base"] = type(QualType(I->getBaseClass(), 0)); else if (I->isAnyMemberInitializer()) q["mem"] = I->getAnyMember()->getNameAsString(); else if (I->isDelegatingInitializer()) q["deleg"] = 1;
        q["e"] = expr(I->getInit()); in.push_back(std::move(q)); }
      o["inits"] = std::move(in);
    }
    o["body"] = stmt(D->getBody()); o["defaulted"] = D->isDefaulted();
    if (auto* B = D->getBody()) { o["l0"] = line(B->getBeginLoc()); o["l1"] = line(B->getEndLoc()); }
    bodies[funIds[F->getCanonicalDecl()]] = std::move(o);
  }
};
class Finder : public RecursiveASTVisitor<Finder> {
 public:
  Dumper& D; llvm::Regex R; 
  Finder(Dumper& D) : D(D), R(Roots) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (F->isDependentContext()) return true;
    if (F->getDescribedFunctionTemplate()) return true;
    if (!D.defOf(F)) return true;
    const FunctionDecl* X = D.defOf(F);
    if (!D.inScope(X->getLocation())) return true;
    if (!R.match(F->getQualifiedNameAsString())) return true;
    D.fun(F);
    return true;
  }
};
class Cons : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& C) override {
    Dumper D(C); Finder F(D); F.TraverseDecl(C.getTranslationUnitDecl());
    while (!D.work.empty()) { auto* f = D.work.front(); D.work.pop_front(); D.body(f); }
    json::Object o; json::Object b;
    for (auto& x : D.bodies) b[std::to_string(x.first)] = std::move(x.second);
    o["bodies"] = std::move(b); o["types"] = std::move(D.types); o["funcs"] = std::move(D.funcs); o["vars"] = std::move(D.vars); o["records"] = std::move(D.records);
    std::error_code EC; llvm::raw_fd_ostream os(Out == "-" ? "-" : Out.c_str(), EC);
    os << json::Value(std::move(o)) << "\n";
  }
};
class Act : public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, const char** argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
