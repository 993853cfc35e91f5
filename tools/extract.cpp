// Mechanical extractor: parses one translation unit with clang's own front end
// and dumps, as JSON, the typed and fully instantiated AST of every function
// that is (a) written in the main file or under the given repository prefix and
// (b) reachable from the main file.  Nothing is rewritten: the JSON is the
// semantic AST (implicit casts, temporaries, resolved callees, constants).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <fstream>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Prefixes;
static std::string OutFile;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  std::map<const Type *, int> typeIds;
  std::map<std::pair<const Type *, unsigned>, int> qtypeIds;
  std::vector<Value> types;
  std::map<const Decl *, int> declIds;
  std::map<int, Value> functions, records, vars;
  std::deque<const FunctionDecl *> work;
  std::set<const FunctionDecl *> seen;
  std::set<const CXXRecordDecl *> seenRec;
  std::deque<const CXXRecordDecl *> recWork;
  std::set<const VarDecl *> seenVar;
  std::map<const OpaqueValueExpr *, int> ove;
  std::set<std::string> unsupported;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()) {}

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1;
    declIds[D] = n;
    return n;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getFilename() : "";
  }
  bool inScope(const Decl *D) {
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    if (L.isInvalid()) return false;
    if (SM.isInMainFile(L)) return true;
    std::string f = fileOf(L);
    for (auto &p : Prefixes)
      if (f.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  int lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? (int)P.getLine() : 0;
  }

  std::string qname(const NamedDecl *D) {
    std::vector<std::string> parts;
    std::string last;
    {
      llvm::raw_string_ostream os(last);
      if (isa<CXXConstructorDecl>(D)) os << "(ctor)";
      else if (isa<CXXDestructorDecl>(D)) os << "(dtor)";
      else if (isa<CXXConversionDecl>(D)) os << "(conv)";
      else if (auto *R = dyn_cast<CXXRecordDecl>(D); R && R->isLambda()) os << "(lambda)";
      else if (D->getDeclName().isEmpty()) os << "(anon)";
      else os << D->getDeclName();
    }
    parts.push_back(last);
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
        if (!N->isInline() && !N->isAnonymousNamespace()) parts.push_back(N->getNameAsString());
        else if (N->isAnonymousNamespace()) parts.push_back("(anonns)");
        DC = DC->getParent();
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        auto *CR = dyn_cast<CXXRecordDecl>(R);
        if (CR && CR->isLambda()) parts.push_back("(lambda)");
        else if (R->getDeclName().isEmpty()) parts.push_back("(anon)");
        else parts.push_back(R->getNameAsString());
        DC = DC->getParent();
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        parts.push_back(F->getNameAsString() + "()");
        DC = DC->getParent();
      } else DC = DC->getParent();
    }
    std::string r;
    for (auto i = parts.rbegin(); i != parts.rend(); ++i) {
      if (!r.empty()) r += "::";
      r += *i;
    }
    return r;
  }

  Value apvalue(const APValue &V) {
    switch (V.getKind()) {
    case APValue::Int: {
      llvm::SmallString<32> s; V.getInt().toString(s, 10);
      return Object{{"i", std::string(s)}};
    }
    case APValue::Float: {
      llvm::SmallString<32> s; V.getFloat().toString(s);
      return Object{{"f", std::string(s)}};
    }
    case APValue::Array: {
      Array a;
      for (unsigned i = 0; i < V.getArrayInitializedElts(); ++i) a.push_back(apvalue(V.getArrayInitializedElt(i)));
      if (V.hasArrayFiller())
        for (unsigned i = V.getArrayInitializedElts(); i < V.getArraySize() && i < 4096; ++i) a.push_back(apvalue(V.getArrayFiller()));
      return Object{{"a", std::move(a)}};
    }
    case APValue::Struct: {
      Array a, b;
      for (unsigned i = 0; i < V.getStructNumBases(); ++i) b.push_back(apvalue(V.getStructBase(i)));
      for (unsigned i = 0; i < V.getStructNumFields(); ++i) a.push_back(apvalue(V.getStructField(i)));
      return Object{{"s", std::move(a)}, {"b", std::move(b)}};
    }
    case APValue::LValue: {
      if (auto B = V.getLValueBase()) {
        if (auto *E = B.dyn_cast<const Expr *>())
          if (auto *S = dyn_cast<StringLiteral>(E)) {
            Array a;
            for (unsigned i = 0; i < S->getLength(); ++i) a.push_back((int64_t)S->getCodeUnit(i));
            return Object{{"str", std::move(a)}, {"off", (int64_t)V.getLValueOffset().getQuantity()}};
          }
      }
      if (V.isNullPointer()) return Object{{"null", true}};
      return Object{{"lv", true}};
    }
    default: return Object{{"none", true}};
    }
  }

  Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return Object{{"t", type(A.getAsType())}};
    case TemplateArgument::Integral: { llvm::SmallString<32> s; A.getAsIntegral().toString(s, 10); return Object{{"i", std::string(s)}}; }
    case TemplateArgument::Declaration: {
      if (auto *P = dyn_cast<TemplateParamObjectDecl>(A.getAsDecl())) return Object{{"obj", apvalue(P->getValue())}};
      if (auto *N = dyn_cast<NamedDecl>(A.getAsDecl())) return Object{{"d", qname(N)}};
      return Object{{"d", "?"}};
    }
    case TemplateArgument::Pack: {
      Array a;
      for (auto &x : A.pack_elements()) a.push_back(targ(x));
      return Object{{"pack", std::move(a)}};
    }
    case TemplateArgument::Template: return Object{{"tmpl", true}};
    case TemplateArgument::StructuralValue: return Object{{"obj", apvalue(A.getAsStructuralValue())}};
    default: return Object{{"x", (int)A.getKind()}};
    }
  }

  int type(QualType Q) {
    Q = Q.getCanonicalType();
    unsigned cv = Q.getCVRQualifiers();
    const Type *T = Q.getTypePtr();
    auto key = std::make_pair(T, cv);
    auto it = qtypeIds.find(key);
    if (it != qtypeIds.end()) return it->second;
    int n = types.size();
    types.push_back(nullptr);
    qtypeIds[key] = n;
    Object o;
    o["s"] = Q.getAsString();
    if (cv & Qualifiers::Const) o["const"] = true;
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      if (B->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (B->isInteger()) {
        o["k"] = "int"; o["w"] = (int)C.getTypeSize(Q); o["sg"] = B->isSignedInteger();
        o["ch"] = T->isAnyCharacterType();
      } else if (B->isFloatingPoint()) o["k"] = "float";
      else if (B->isVoidType()) o["k"] = "void";
      else if (B->isNullPtrType()) o["k"] = "nullptr";
      else o["k"] = "builtin";
    } else if (auto *E = dyn_cast<EnumType>(T)) {
      o["k"] = "enum"; o["q"] = qname(E->getDecl());
      auto IT = E->getDecl()->getIntegerType();
      if (!IT.isNull()) { o["w"] = (int)C.getTypeSize(IT); o["sg"] = IT->isSignedIntegerType(); }
      o["fixed"] = E->getDecl()->isFixed();
      Array en;
      for (auto *ec : E->getDecl()->enumerators()) {
        llvm::SmallString<32> s; ec->getInitVal().toString(s, 10);
        { Array pr; pr.push_back(ec->getNameAsString()); pr.push_back(std::string(s)); en.push_back(std::move(pr)); }
      }
      o["en"] = std::move(en);
    } else if (auto *R = dyn_cast<RecordType>(T)) {
      o["k"] = "rec"; o["q"] = qname(R->getDecl());
      if (auto *CR = dyn_cast<CXXRecordDecl>(R->getDecl())) {
        o["id"] = id(CR); 
        record(CR);
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(CR)) {
          Array a;
          for (auto &A : S->getTemplateArgs().asArray()) a.push_back(targ(A));
          o["ta"] = std::move(a);
        }
      }
    } else if (auto *P = dyn_cast<PointerType>(T)) { o["k"] = "ptr"; o["to"] = type(P->getPointeeType()); }
    else if (auto *P = dyn_cast<LValueReferenceType>(T)) { o["k"] = "lref"; o["to"] = type(P->getPointeeType()); }
    else if (auto *P = dyn_cast<RValueReferenceType>(T)) { o["k"] = "rref"; o["to"] = type(P->getPointeeType()); }
    else if (auto *A = dyn_cast<ConstantArrayType>(T)) { o["k"] = "arr"; o["n"] = (int64_t)A->getSize().getZExtValue(); o["to"] = type(A->getElementType()); }
    else if (isa<FunctionType>(T)) o["k"] = "fn";
    else if (isa<MemberPointerType>(T)) o["k"] = "mptr";
    else o["k"] = "other";
    types[n] = std::move(o);
    return n;
  }

  void record(const CXXRecordDecl *R) {
    R = R->getDefinition() ? R->getDefinition() : R;
    if (!seenRec.insert(R).second) return;
    recWork.push_back(R);
  }

  void dumpRecord(const CXXRecordDecl *R) {
    Object o;
    o["q"] = qname(R);
    o["inscope"] = inScope(R);
    if (R->hasDefinition()) {
      bool full = inScope(R) || R->isLambda();
      o["union"] = R->isUnion();
      o["lambda"] = R->isLambda();
      o["line"] = lineOf(R->getLocation());
      if (full) {
        Array f;
        for (auto *F : R->fields()) {
          Object fo{{"n", F->getNameAsString()}, {"id", id(F)}, {"t", type(F->getType())}};
          if (F->isMutable()) fo["mut"] = true;
          if (F->isAnonymousStructOrUnion()) fo["anon"] = true;
          if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = expr(F->getInClassInitializer());
          f.push_back(std::move(fo));
        }
        o["fields"] = std::move(f);
        if (auto *D = R->getDestructor()) { o["dtor"] = id(D); if (!D->isTrivial()) enqueue(D); }
        Array ms;
        for (auto *M : R->methods()) if (M->isUserProvided() || M->isDefaulted()) {
          Object mo{{"n", M->getNameAsString()}, {"id", id(M)}, {"del", M->isDeleted()}, {"def", M->isDefaulted()}};
          ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
      }
      Array b;
      for (auto &B : R->bases()) b.push_back(type(B.getType()));
      o["bases"] = std::move(b);
      o["trivdtor"] = R->hasTrivialDestructor();
      o["trivcopy"] = R->isTriviallyCopyable();
      if (R->isLambda()) {
        Array caps;
        auto fit = R->field_begin();
        for (auto &cap : R->captures()) {
          Object co;
          if (cap.capturesThis()) { co["k"] = "this"; co["byref"] = cap.getCaptureKind() == LCK_This; }
          else if (cap.capturesVariable()) {
            co["k"] = "var"; co["v"] = id(cap.getCapturedVar()); co["n"] = cap.getCapturedVar()->getNameAsString();
            co["byref"] = cap.getCaptureKind() == LCK_ByRef;
          } else co["k"] = "other";
          co["f"] = id(*fit); ++fit;
          caps.push_back(std::move(co));
        }
        o["caps"] = std::move(caps);
        if (auto *M = R->getLambdaCallOperator()) { o["call"] = id(M); enqueue(M);
          if (R->isGenericLambda()) {
            o["generic"] = true;
            if (auto *FT = R->getDependentLambdaCallOperator()) (void)FT;
            if (auto *T = M->getDescribedFunctionTemplate()) {
              Array sp;
              for (auto *S : T->specializations()) { sp.push_back(id(S)); enqueue(S); }
              o["specs"] = std::move(sp);
            }
          }
        }
      }
    }
    records.insert_or_assign(id(R), Value(std::move(o)));
  }

  void enqueue(const FunctionDecl *F) {
    if (!F) return;
    F = F->getCanonicalDecl();
    if (!seen.insert(F).second) return;
    work.push_back(F);
  }

  int fn(const FunctionDecl *F) {
    enqueue(F);
    return id(F);
  }

  static const char *kindOf(const FunctionDecl *F) {
    if (isa<CXXConstructorDecl>(F)) return "ctor";
    if (isa<CXXDestructorDecl>(F)) return "dtor";
    if (isa<CXXConversionDecl>(F)) return "conv";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) return M->isStatic() ? "smethod" : "method";
    return "fn";
  }

  void dumpFunction(const FunctionDecl *F) {
    Object o;
    o["q"] = qname(F);
    o["kind"] = kindOf(F);
    o["name"] = F->getNameAsString();
    if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    o["ret"] = type(F->getReturnType());
    o["variadic"] = F->isVariadic();
    Array ps;
    for (auto *P : F->parameters()) ps.push_back(Object{{"id", id(P)}, {"n", P->getNameAsString()}, {"t", type(P->getType())}});
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      record(M->getParent());
      o["rec"] = id(M->getParent());
      o["rect"] = type(C.getRecordType(M->getParent()));
      o["const"] = M->isConst();
      o["virtual"] = M->isVirtual();
      o["pure"] = M->isPureVirtual();
      o["rq"] = M->getRefQualifier() == RQ_LValue ? "&" : M->getRefQualifier() == RQ_RValue ? "&&" : "";
      o["cpctor"] = isa<CXXConstructorDecl>(M) && cast<CXXConstructorDecl>(M)->isCopyConstructor();
      o["mvctor"] = isa<CXXConstructorDecl>(M) && cast<CXXConstructorDecl>(M)->isMoveConstructor();
      o["cpasg"] = M->isCopyAssignmentOperator();
      o["mvasg"] = M->isMoveAssignmentOperator();
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array a;
      for (auto &A : TA->asArray()) a.push_back(targ(A));
      o["ta"] = std::move(a);
    }
    o["deleted"] = F->isDeleted();
    o["defaulted"] = F->isDefaulted();
    o["trivial"] = F->isTrivial();
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
      // an implicit member nobody used: its exception specification was never computed; the member is never called here
      auto E = FPT->getExceptionSpecType();
      bool open = E == EST_Unevaluated || E == EST_Uninstantiated || E == EST_Unparsed;
      o["noexcept"] = !open && FPT->isNothrow();
    }
    bool scope = inScope(F);
    const FunctionDecl *Def = nullptr;
    F->hasBody(Def);
    if (!scope && F->getTemplateInstantiationPattern()) scope = inScope(F->getTemplateInstantiationPattern());
    o["inscope"] = scope;
    o["file"] = fileOf(F->getLocation());
    o["line"] = lineOf(F->getLocation());
    if (scope && Def && !Def->isDependentContext()) {
      o["line"] = lineOf(Def->getLocation());
      o["endline"] = lineOf(Def->getEndLoc());
      Array ps2;
      for (auto *P : Def->parameters()) ps2.push_back(Object{{"id", id(P)}, {"n", P->getNameAsString()}, {"t", type(P->getType())}});
      o["params"] = std::move(ps2);
      if (auto *K = dyn_cast<CXXConstructorDecl>(Def)) {
        Array in;
        for (auto *I : K->inits()) {
          Object io;
          if (I->isAnyMemberInitializer()) {
            if (I->getAnyMember()) { io["f"] = id(I->getAnyMember()); io["fn"] = I->getAnyMember()->getNameAsString(); }
            if (I->isIndirectMemberInitializer()) {
              Array ch;
              for (auto *c : I->getIndirectMember()->chain()) ch.push_back(id(c));
              io["chain"] = std::move(ch);
            }
          } else if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0));
          else if (I->isDelegatingInitializer()) io["deleg"] = true;
          io["e"] = expr(I->getInit());
          io["w"] = I->isWritten();
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      }
      o["body"] = stmt(Def->getBody());
    }
    functions.insert_or_assign(id(F), Value(std::move(o)));
  }

  Value decl(const Decl *D) {
    if (auto *DD = dyn_cast<DecompositionDecl>(D)) {
      Object o{{"k", "Decomp"}, {"id", id(DD)}, {"t", type(DD->getType())}};
      if (DD->getInit()) o["init"] = expr(DD->getInit());
      Array b;
      for (auto *B : DD->bindings()) {
        Object bo{{"id", id(B)}, {"n", B->getNameAsString()}, {"t", type(B->getType())}};
        if (B->getHoldingVar()) bo["hold"] = decl(B->getHoldingVar());
        else if (B->getBinding()) bo["e"] = expr(B->getBinding());
        b.push_back(std::move(bo));
      }
      o["b"] = std::move(b);
      return o;
    }
    if (auto *V = dyn_cast<VarDecl>(D)) {
      Object o{{"k", "Var"}, {"id", id(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}, {"line", lineOf(V->getLocation())}};
      if (V->isStaticLocal()) o["static"] = true;
      if (V->getInit() && !V->getInit()->isValueDependent()) o["init"] = expr(V->getInit());
      if (V->isConstexpr()) o["constexpr"] = true;
      return o;
    }
    return Object{{"k", "OtherDecl"}};
  }

  Value stmtArr(const Stmt *S) { return S ? stmt(S) : Value(nullptr); }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    Object o;
    o["l"] = lineOf(S->getBeginLoc());
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      o["k"] = "Block"; Array a;
      for (auto *c : cast<CompoundStmt>(S)->body()) a.push_back(stmt(c));
      o["b"] = std::move(a); return o;
    }
    case Stmt::DeclStmtClass: {
      o["k"] = "Decl"; Array a;
      for (auto *d : cast<DeclStmt>(S)->decls()) a.push_back(decl(d));
      o["d"] = std::move(a); return o;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      o["k"] = "If"; o["constexpr"] = I->isConstexpr(); o["consteval"] = I->isConsteval();
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariableDeclStmt()) o["cv"] = stmt(I->getConditionVariableDeclStmt());
      if (I->getCond()) o["c"] = expr(I->getCond());
      o["th"] = stmtArr(I->getThen()); o["el"] = stmtArr(I->getElse());
      return o;
    }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(S);
      o["k"] = "While";
      if (W->getConditionVariableDeclStmt()) o["cv"] = stmt(W->getConditionVariableDeclStmt());
      o["c"] = expr(W->getCond()); o["body"] = stmt(W->getBody()); return o;
    }
    case Stmt::DoStmtClass: {
      auto *W = cast<DoStmt>(S);
      o["k"] = "Do"; o["c"] = expr(W->getCond()); o["body"] = stmt(W->getBody()); return o;
    }
    case Stmt::ForStmtClass: {
      auto *W = cast<ForStmt>(S);
      o["k"] = "For"; o["init"] = stmtArr(W->getInit());
      if (W->getConditionVariableDeclStmt()) o["cv"] = stmt(W->getConditionVariableDeclStmt());
      o["c"] = stmtArr(W->getCond()); o["inc"] = stmtArr(W->getInc()); o["body"] = stmt(W->getBody()); return o;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *W = cast<CXXForRangeStmt>(S);
      o["k"] = "ForRange"; o["init"] = stmtArr(W->getInit());
      o["range"] = stmtArr(W->getRangeStmt()); o["begin"] = stmtArr(W->getBeginStmt()); o["end"] = stmtArr(W->getEndStmt());
      o["c"] = stmtArr(W->getCond()); o["inc"] = stmtArr(W->getInc()); o["var"] = stmtArr(W->getLoopVarStmt());
      o["body"] = stmt(W->getBody()); return o;
    }
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(S);
      o["k"] = "Switch"; o["init"] = stmtArr(W->getInit());
      if (W->getConditionVariableDeclStmt()) o["cv"] = stmt(W->getConditionVariableDeclStmt());
      o["c"] = expr(W->getCond()); o["body"] = stmt(W->getBody()); return o;
    }
    case Stmt::CaseStmtClass: {
      auto *W = cast<CaseStmt>(S);
      o["k"] = "Case"; 
      { auto v = W->getLHS()->EvaluateKnownConstInt(C); llvm::SmallString<32> s; v.toString(s, 10); o["v"] = std::string(s); }
      o["b"] = stmtArr(W->getSubStmt()); return o;
    }
    case Stmt::DefaultStmtClass: o["k"] = "Default"; o["b"] = stmtArr(cast<DefaultStmt>(S)->getSubStmt()); return o;
    case Stmt::ReturnStmtClass: o["k"] = "Return"; if (auto *e = cast<ReturnStmt>(S)->getRetValue()) o["e"] = expr(e); return o;
    case Stmt::CoreturnStmtClass: o["k"] = "Return"; o["co"] = true; if (auto *e = cast<CoreturnStmt>(S)->getOperand()) o["e"] = expr(e); return o;
    case Stmt::BreakStmtClass: o["k"] = "Break"; return o;
    case Stmt::ContinueStmtClass: o["k"] = "Continue"; return o;
    case Stmt::NullStmtClass: o["k"] = "Null"; return o;
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      o["k"] = "Try"; o["body"] = stmt(T->getTryBlock());
      Array a;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        Object h;
        if (H->getExceptionDecl()) { h["t"] = type(H->getExceptionDecl()->getType()); h["id"] = id(H->getExceptionDecl()); h["n"] = H->getExceptionDecl()->getNameAsString(); }
        h["b"] = stmt(H->getHandlerBlock());
        a.push_back(std::move(h));
      }
      o["h"] = std::move(a); return o;
    }
    case Stmt::CoroutineBodyStmtClass: o["k"] = "Coro"; o["b"] = stmt(cast<CoroutineBodyStmt>(S)->getBody()); return o;
    default:
      o["k"] = "UnsupportedStmt"; o["cls"] = S->getStmtClassName(); unsupported.insert(S->getStmtClassName()); return o;
    }
  }

  Array args(ArrayRef<const Expr *> as) { Array a; for (auto *x : as) a.push_back(expr(x)); return a; }
  template <class R> Array argsR(R r) { Array a; for (auto *x : r) a.push_back(expr(x)); return a; }

  void varRef(const VarDecl *V) {
    if (!V->hasGlobalStorage() ) return;
    V = V->getCanonicalDecl();
    if (!seenVar.insert(V).second) return;
    Object o{{"q", qname(V)}, {"t", type(V->getType())}};
    const VarDecl *Def = nullptr;
    const Expr *Init = V->getAnyInitializer(Def);
    if (Init && Def && !Init->isValueDependent() && (Def->isConstexpr() || V->getType().isConstQualified())) {
      if (auto *AV = Def->evaluateValue()) o["val"] = apvalue(*AV);
      if (inScope(V)) o["init"] = expr(Init);
    }
    vars.insert_or_assign(id(V), Value(std::move(o)));
  }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    Object o;
    o["l"] = lineOf(E->getExprLoc());
    o["t"] = type(E->getType());
    o["vk"] = E->isPRValue() ? "p" : E->isXValue() ? "x" : "l";
    // constant folding of integral constant expressions
    auto addcv = [&](const Expr *X) {
      if (X->isValueDependent() || !X->isPRValue()) return;
      if (!X->getType()->isIntegralOrEnumerationType()) return;
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
        o["cv"] = std::string(s);
      }
    };
    switch (E->getStmtClass()) {
    case Stmt::IntegerLiteralClass: { o["k"] = "Int"; llvm::SmallString<32> s; cast<IntegerLiteral>(E)->getValue().toString(s, 10, false); o["v"] = std::string(s); return o; }
    case Stmt::CharacterLiteralClass: o["k"] = "Int"; addcv(E); o["v"] = o.getString("cv") ? o.getString("cv")->str() : "0"; return o;
    case Stmt::CXXBoolLiteralExprClass: o["k"] = "Bool"; o["v"] = cast<CXXBoolLiteralExpr>(E)->getValue(); return o;
    case Stmt::FloatingLiteralClass: { o["k"] = "Float"; llvm::SmallString<32> s; cast<FloatingLiteral>(E)->getValue().toString(s); o["v"] = std::string(s); return o; }
    case Stmt::CXXNullPtrLiteralExprClass: o["k"] = "Null"; return o;
    case Stmt::GNUNullExprClass: o["k"] = "Null"; return o;
    case Stmt::StringLiteralClass: {
      auto *S = cast<StringLiteral>(E); o["k"] = "Str"; Array a;
      for (unsigned i = 0; i < S->getLength(); ++i) a.push_back((int64_t)S->getCodeUnit(i));
      o["v"] = std::move(a); return o;
    }
    case Stmt::PredefinedExprClass: return expr(cast<PredefinedExpr>(E)->getFunctionName());
    case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: o["k"] = "Cleanups"; o["e"] = expr(cast<ExprWithCleanups>(E)->getSubExpr()); return o;
    case Stmt::MaterializeTemporaryExprClass: o["k"] = "MatTemp"; o["ext"] = cast<MaterializeTemporaryExpr>(E)->getExtendingDecl() != nullptr; o["e"] = expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr()); return o;
    case Stmt::CXXBindTemporaryExprClass: o["k"] = "BindTemp"; o["e"] = expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr()); return o;
    case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
    case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
    case Stmt::CXXRewrittenBinaryOperatorClass: return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
    case Stmt::CXXStdInitializerListExprClass: o["k"] = "StdInitList"; o["e"] = expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr()); return o;
    case Stmt::OpaqueValueExprClass: {
      auto *OV = cast<OpaqueValueExpr>(E);
      auto it = ove.find(OV); int n = it == ove.end() ? (ove[OV] = (int)ove.size() + 1) : it->second;
      o["k"] = "Opaque"; o["n"] = n; if (OV->getSourceExpr()) o["e"] = expr(OV->getSourceExpr()); return o; }
    case Stmt::CXXThisExprClass: o["k"] = "This"; return o;
    case Stmt::DeclRefExprClass: {
      auto *R = cast<DeclRefExpr>(E); auto *D = R->getDecl();
      o["k"] = "Ref"; o["n"] = D->getNameAsString(); o["cap"] = R->refersToEnclosingVariableOrCapture();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["rk"] = "fn"; o["id"] = fn(F); o["q"] = qname(F); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { o["rk"] = V->hasGlobalStorage() ? "gvar" : "var"; o["id"] = id(V->getCanonicalDecl()); varRef(V); if (V->hasGlobalStorage()) o["q"] = qname(V); addcv(E); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["rk"] = "enum"; llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = std::string(s); }
      else if (auto *B = dyn_cast<BindingDecl>(D)) { o["rk"] = "bind"; o["id"] = id(B); if (B->getHoldingVar()) o["hold"] = id(B->getHoldingVar()); }
      else if (auto *P = dyn_cast<TemplateParamObjectDecl>(D)) { o["rk"] = "tpo"; o["val"] = apvalue(P->getValue()); }
      else o["rk"] = "other";
      return o;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      o["k"] = "Member"; o["arrow"] = M->isArrow(); o["n"] = M->getMemberDecl()->getNameAsString();
      o["b"] = expr(M->getBase());
      if (auto *F = dyn_cast<CXXMethodDecl>(M->getMemberDecl())) { o["rk"] = "fn"; o["id"] = fn(F); }
      else if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) { o["rk"] = "field"; o["id"] = id(F); o["rec"] = id(F->getParent()); if (F->isAnonymousStructOrUnion()) o["anon"] = true; }
      else if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) { o["rk"] = "gvar"; o["id"] = id(V->getCanonicalDecl()); varRef(V); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(M->getMemberDecl())) { o["rk"] = "enum"; llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = std::string(s); }
      return o;
    }
    case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::CallExprClass: case Stmt::UserDefinedLiteralClass: {
      auto *X = cast<CallExpr>(E);
      o["k"] = "Call";
      addcv(E);
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) o["op"] = getOperatorSpelling(OC->getOperator());
      if (auto *F = X->getDirectCallee()) { o["fn"] = fn(F); o["q"] = qname(F); }
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
        if (MC->getMethodDecl()) {
          o["this"] = expr(MC->getImplicitObjectArgument());
          if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParenImpCasts())) { o["thisptr"] = ME->isArrow(); o["qualified"] = ME->hasQualifier(); }
        } else o["callee"] = expr(X->getCallee());
      }
      else if (!X->getDirectCallee()) o["callee"] = expr(X->getCallee());
      Array a; for (auto *x : X->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return o;
    }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *X = cast<CXXConstructExpr>(E);
      o["k"] = "Ctor"; o["fn"] = fn(X->getConstructor()); o["q"] = qname(X->getConstructor()); o["elid"] = X->isElidable();
      o["list"] = X->isListInitialization(); o["zero"] = X->requiresZeroInitialization();
      o["cp"] = X->getConstructor()->isCopyConstructor(); o["mv"] = X->getConstructor()->isMoveConstructor();
      Array a; for (auto *x : X->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a); return o;
    }
    case Stmt::CXXInheritedCtorInitExprClass: { auto *X = cast<CXXInheritedCtorInitExpr>(E); o["k"] = "InhCtor"; o["fn"] = fn(X->getConstructor()); return o; }
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXDynamicCastExprClass: {
      auto *X = cast<CastExpr>(E);
      o["k"] = "Cast"; o["ck"] = X->getCastKindName(); o["cls"] = E->getStmtClassName();
      addcv(E);
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    case Stmt::UnaryOperatorClass: { auto *X = cast<UnaryOperator>(E); o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["post"] = X->isPostfix(); addcv(E); o["e"] = expr(X->getSubExpr()); return o; }
    case Stmt::BinaryOperatorClass: { auto *X = cast<BinaryOperator>(E); o["k"] = "Bin"; o["op"] = X->getOpcodeStr().str(); addcv(E); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); return o; }
    case Stmt::CompoundAssignOperatorClass: { auto *X = cast<CompoundAssignOperator>(E); o["k"] = "Asg"; o["op"] = X->getOpcodeStr().str(); o["ct"] = type(X->getComputationLHSType()); o["crt"] = type(X->getComputationResultType()); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); return o; }
    case Stmt::ConditionalOperatorClass: { auto *X = cast<ConditionalOperator>(E); o["k"] = "Cond"; addcv(E); o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr()); return o; }
    case Stmt::ArraySubscriptExprClass: { auto *X = cast<ArraySubscriptExpr>(E); o["k"] = "Idx"; o["a"] = expr(X->getBase()); o["b"] = expr(X->getIdx()); return o; }
    case Stmt::InitListExprClass: {
      auto *X = cast<InitListExpr>(E); if (X->isSyntacticForm() && X->getSemanticForm()) X = X->getSemanticForm();
      o["k"] = "InitList"; 
      if (X->isTransparent()) return expr(X->getInit(0));
      Array a; for (auto *x : X->inits()) a.push_back(expr(x)); o["a"] = std::move(a);
      if (auto *F = X->getInitializedFieldInUnion()) o["uf"] = id(F);
      if (X->hasArrayFiller()) o["fill"] = expr(X->getArrayFiller());
      return o;
    }
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: o["k"] = "ZeroInit"; return o;
    case Stmt::LambdaExprClass: {
      auto *X = cast<LambdaExpr>(E); o["k"] = "Lambda"; o["rec"] = id(X->getLambdaClass()); record(X->getLambdaClass());
      Array a; for (auto *x : X->capture_inits()) a.push_back(expr(x)); o["a"] = std::move(a); return o;
    }
    case Stmt::CXXNewExprClass: { auto *X = cast<CXXNewExpr>(E); o["k"] = "New"; o["at"] = type(X->getAllocatedType()); Array a; for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) a.push_back(expr(X->getPlacementArg(i))); o["pl"] = std::move(a);
      if (X->getInitializer()) o["init"] = expr(X->getInitializer()); o["array"] = X->isArray(); return o; }
    case Stmt::CXXDeleteExprClass: o["k"] = "Delete"; o["e"] = expr(cast<CXXDeleteExpr>(E)->getArgument()); return o;
    case Stmt::CXXThrowExprClass: o["k"] = "Throw"; o["e"] = expr(cast<CXXThrowExpr>(E)->getSubExpr()); return o;
    case Stmt::CoawaitExprClass: o["k"] = "Await"; o["e"] = expr(cast<CoawaitExpr>(E)->getOperand()); return o;
    case Stmt::UnaryExprOrTypeTraitExprClass: case Stmt::SizeOfPackExprClass: case Stmt::CXXNoexceptExprClass: case Stmt::TypeTraitExprClass:
    case Stmt::ConceptSpecializationExprClass: case Stmt::RequiresExprClass: {
      o["k"] = "Const"; addcv(E); return o; }
    case Stmt::CXXPseudoDestructorExprClass: o["k"] = "PseudoDtor"; o["b"] = expr(cast<CXXPseudoDestructorExpr>(E)->getBase()); return o;
    case Stmt::CXXFoldExprClass: default:
      o["k"] = "UnsupportedExpr"; o["cls"] = E->getStmtClassName(); unsupported.insert(E->getStmtClassName()); return o;
    }
  }

  void drain() {
    while (!work.empty() || !recWork.empty()) {
      if (!work.empty()) { auto *F = work.front(); work.pop_front(); dumpFunction(F); }
      else { auto *R = recWork.front(); recWork.pop_front(); dumpRecord(R); }
    }
  }
};

struct Roots : RecursiveASTVisitor<Roots> {
  Dumper &D; std::vector<const FunctionDecl *> roots;
  Roots(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (D.SM.isInMainFile(D.SM.getExpansionLoc(F->getLocation()))) roots.push_back(F);
    return true;
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    for (auto *T : C.getTranslationUnitDecl()->decls()) {
      if (!D.SM.isInMainFile(D.SM.getExpansionLoc(T->getLocation()))) continue;
      Roots R(D);
      R.TraverseDecl(T);
      for (auto *F : R.roots) D.enqueue(F);
    }
    D.drain();
    Object fs, rs, vs;
    for (auto &p : D.functions) fs[std::to_string(p.first)] = std::move(p.second);
    D.drain();
    for (auto &p : D.records) rs[std::to_string(p.first)] = std::move(p.second);
    for (auto &p : D.vars) vs[std::to_string(p.first)] = std::move(p.second);
    Array ts; for (auto &t : D.types) ts.push_back(std::move(t));
    Array un; for (auto &u : D.unsupported) un.push_back(u);
    Object out{{"functions", std::move(fs)}, {"records", std::move(rs)}, {"vars", std::move(vs)}, {"types", std::move(ts)}, {"unsupported", std::move(un)}};
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << Value(std::move(out));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};

int main(int argc, char **argv) {
  // extract OUT MAIN.cpp PREFIX... -- flags
  std::vector<std::string> flags;
  OutFile = argv[1];
  std::string src = argv[2];
  int i = 3;
  for (; i < argc && std::string(argv[i]) != "--"; ++i) Prefixes.push_back(argv[i]);
  for (++i; i < argc; ++i) flags.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase DB(".", flags);
  clang::tooling::ClangTool T(DB, {src});
  return T.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
