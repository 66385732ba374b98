// Exports the resolved (type-checked, template-instantiated) program of one
// translation unit as JSON: every function, record and global that is defined
// in a file below the given root.
#include "clang/AST/AST.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Index/USRGeneration.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string Root;

struct Exporter {
  ASTContext& C;
  SourceManager& SM;
  json::Array funcs, records, globals, casts, enums;
  std::map<const Decl*, int> ids;
  std::set<const Decl*> seen;
  explicit Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()) {}

  int id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[d] = n;
    return n;
  }
  std::string file(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    auto n = SM.getFilename(l);
    return n.str();
  }
  bool inRoot(SourceLocation l) {
    std::string f = file(l);
    return f.compare(0, Root.size(), Root) == 0;
  }
  int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }

  std::string targ(const TemplateArgument& a) {
    switch (a.getKind()) {
      case TemplateArgument::Type: return ty(a.getAsType());
      case TemplateArgument::Integral: {
        llvm::SmallString<16> s;
        a.getAsIntegral().toString(s, 10);
        return s.str().str();
      }
      case TemplateArgument::Pack: {
        std::string r;
        for (auto& x : a.pack_elements()) r += (r.empty() ? "" : ",") + targ(x);
        return r;
      }
      default: return "?";
    }
  }
  std::string rec(const RecordDecl* rd) {
    std::string n = rd->getQualifiedNameAsString();
    if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
      bool full = n.compare(0, 7, "Eigen::") != 0 || n == "Eigen::Matrix" ||
                  n == "Eigen::Array" || n == "Eigen::Map" || n == "Eigen::Ref" ||
                  n == "Eigen::LLT" || n == "Eigen::LDLT" || n=="Eigen::Block" || n=="Eigen::VectorBlock"
                  || n=="Eigen::TriangularView" || n == "Eigen::MapBase";
      if (full) {
        std::string r;
        int k = 0;
        for (auto& a : s->getTemplateArgs().asArray()) {
          if (n.compare(0, 5, "std::") == 0 && k >= 2) break;
          r += (r.empty() ? "" : ",") + targ(a);
          k++;
        }
        n += "<" + r + ">";
      }
    }
    if (n.find("anonymous") != std::string::npos || n.empty() || (rd->isLambda()))
      n += "#" + std::to_string(line(rd->getLocation()));
    return n;
  }
  std::string ty(QualType q) {
    if (q.isNull()) return "?";
    q = q.getCanonicalType();
    std::string c = q.isConstQualified() ? "const " : "";
    const Type* t = q.getTypePtr();
    if (auto* r = dyn_cast<RecordType>(t)) return c + rec(r->getDecl());
    if (auto* e = dyn_cast<EnumType>(t)) return c + "enum " + e->getDecl()->getQualifiedNameAsString();
    if (auto* p = dyn_cast<PointerType>(t)) return ty(p->getPointeeType()) + "*" + (c.empty() ? "" : " const");
    if (auto* p = dyn_cast<ReferenceType>(t)) return ty(p->getPointeeType()) + (p->isRValueReferenceType() ? "&&" : "&");
    if (auto* a = dyn_cast<ConstantArrayType>(t)) return ty(a->getElementType()) + "[" + std::to_string(a->getSize().getZExtValue()) + "]";
    if (isa<FunctionType>(t)) return "fn";
    PrintingPolicy pp(C.getLangOpts());
    pp.Bool = true;
    return q.getAsString(pp);
  }
  std::string key(const FunctionDecl* f) {
    llvm::SmallString<256> s;
    f = f->getCanonicalDecl();
    index::generateUSRForDecl(f, s);
    std::string r = s.str().str();
    if (f->getTemplateSpecializationArgs()) {
      r += "<";
      for (auto& a : f->getTemplateSpecializationArgs()->asArray()) r += targ(a) + ",";
      r += ">";
    }
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) r += "@" + rec(m->getParent());
    return r;
  }
  json::Object callee(const FunctionDecl* f) {
    json::Object o;
    o["n"] = f->getQualifiedNameAsString();
    o["key"] = key(f);
    o["rt"] = ty(f->getReturnType());
    if (f->isVariadic()) o["variadic"] = true;
    if (inRoot(f->getLocation())) o["own"] = true;
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isTrivial()) o["trivial"] = true;
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      json::Array a;
      int k = 0;
      for (auto& x : ta->asArray()) { if (k++ > 6) break; a.push_back(targ(x)); }
      o["ta"] = std::move(a);
    }
    json::Array pt;
    for (auto* p : f->parameters()) pt.push_back(ty(p->getType()));
    o["pt"] = std::move(pt);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = rec(m->getParent());
      if (m->isVirtual()) o["virt"] = true;
      if (m->isConst()) o["const"] = true;
      if (m->isStatic()) o["static"] = true;
      if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["assign"] = true;
      if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
        o["ctor"] = true;
        if (cd->isCopyOrMoveConstructor()) o["copy"] = true;
        if (cd->isDefaultConstructor()) o["dflt"] = true;
      }
    }
    return o;
  }
  json::Value E(const Expr* e) { return X(e); }
  template <class T> json::Array argsOf(const T* c) {
    json::Array a;
    for (unsigned i = 0; i < c->getNumArgs(); i++) a.push_back(X(c->getArg(i)));
    return a;
  }
  json::Object node(const char* k, const Stmt* s) {
    json::Object o;
    o["k"] = k;
    o["l"] = line(s->getBeginLoc());
    if (auto* e = dyn_cast<Expr>(s)) o["t"] = ty(e->getType());
    return o;
  }
  json::Value X(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* p = dyn_cast<ParenExpr>(s)) return X(p->getSubExpr());
    if (auto* p = dyn_cast<ExprWithCleanups>(s)) return X(p->getSubExpr());
    if (auto* p = dyn_cast<MaterializeTemporaryExpr>(s)) {
      auto o = node("mat", s); o["e"] = X(p->getSubExpr()); return std::move(o);
    }
    if (auto* p = dyn_cast<CXXBindTemporaryExpr>(s)) return X(p->getSubExpr());
    if (auto* p = dyn_cast<ConstantExpr>(s)) return X(p->getSubExpr());
    if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return X(p->getReplacement());
    if (auto* p = dyn_cast<CXXDefaultArgExpr>(s)) return X(p->getExpr());
    if (auto* p = dyn_cast<CXXDefaultInitExpr>(s)) return X(p->getExpr());
    if (auto* p = dyn_cast<CXXStdInitializerListExpr>(s)) return X(p->getSubExpr());
    if (auto* p = dyn_cast<OpaqueValueExpr>(s)) return p->getSourceExpr() ? X(p->getSourceExpr()) : json::Value(node("opaque", s));
    if (auto* e = dyn_cast<CastExpr>(s)) {
      switch (e->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
        case CK_FunctionToPointerDecay: case CK_UserDefinedConversion: case CK_ConstructorConversion:
        case CK_BaseToDerived: case CK_BuiltinFnToFnPtr: {
          if (auto* cc = dyn_cast<CXXConstCastExpr>(e)) {
            auto o = node("cast", s); o["ck"] = "const_cast"; o["e"] = X(e->getSubExpr()); o["from"] = ty(e->getSubExpr()->getType()); return std::move(o);
          }
          if (isa<CStyleCastExpr>(e) || isa<CXXStaticCastExpr>(e)) {
            auto o = node("cast", s); o["ck"] = "noop"; o["e"] = X(e->getSubExpr()); o["from"] = ty(e->getSubExpr()->getType()); return std::move(o);
          }
          return X(e->getSubExpr());
        }
        default: break;
      }
      auto o = node("cast", s);
      o["ck"] = e->getCastKindName();
      if (isa<CXXReinterpretCastExpr>(e)) o["ck"] = "reinterpret";
      o["from"] = ty(e->getSubExpr()->getType());
      o["e"] = X(e->getSubExpr());
      return std::move(o);
    }
    if (auto* i = dyn_cast<IntegerLiteral>(s)) { auto o = node("int", s); llvm::SmallString<16> t; i->getValue().toString(t, 10, i->getType()->isSignedIntegerType()); o["v"] = t.str().str(); return std::move(o); }
    if (auto* i = dyn_cast<CharacterLiteral>(s)) { auto o = node("int", s); o["v"] = std::to_string(i->getValue()); return std::move(o); }
    if (auto* i = dyn_cast<FloatingLiteral>(s)) {
      auto o = node("flt", s);
      auto r = SM.getSpellingLoc(i->getBeginLoc());
      bool inv = false;
      const char* p = SM.getCharacterData(r, &inv);
      std::string t;
      if (!inv) { while (*p && (isalnum(*p) || *p == '.' || ((*p == '-' || *p == '+') && !t.empty() && (t.back() == 'e' || t.back() == 'E')))) t += *p++; }
      llvm::SmallString<32> v; i->getValue().toString(v);
      o["v"] = v.str().str(); o["src"] = t; return std::move(o);
    }
    if (auto* b = dyn_cast<CXXBoolLiteralExpr>(s)) { auto o = node("bool", s); o["v"] = b->getValue(); return std::move(o); }
    if (auto* b = dyn_cast<StringLiteral>(s)) { auto o = node("str", s); o["v"] = b->getCharByteWidth() == 1 ? json::fixUTF8(b->getString()) : ""; return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) return node("null", s);
    if (isa<CXXThisExpr>(s)) return node("this", s);
    if (auto* d = dyn_cast<DeclRefExpr>(s)) {
      auto o = node("ref", s);
      const ValueDecl* v = d->getDecl();
      o["n"] = v->getQualifiedNameAsString();
      if (auto* ec = dyn_cast<EnumConstantDecl>(v)) { o["d"] = "enum"; o["v"] = ec->getInitVal().getExtValue(); }
      else if (auto* f = dyn_cast<FunctionDecl>(v)) { o["d"] = "fn"; o["c"] = callee(f); }
      else if (auto* vd = dyn_cast<VarDecl>(v)) {
        o["id"] = id(vd);
        if (vd->hasGlobalStorage()) {
          o["d"] = "global";
          if (vd->isStaticDataMember() || vd->isFileVarDecl() || vd->isStaticLocal()) {
            const VarDecl* def = nullptr;
            if (const Expr* in = vd->getAnyInitializer(def)) {
              if (vd->getType().isConstQualified() || vd->isConstexpr()) {
                Expr::EvalResult r;
                if (!in->isValueDependent() && in->EvaluateAsInt(r, C)) o["cv"] = r.Val.getInt().getExtValue();
                else if (inRoot(vd->getLocation())) o["init"] = X(in);
              }
            }
          }
          if (vd->getType().isConstQualified()) o["const"] = true;
          if (inRoot(vd->getLocation())) o["own"] = true;
        } else o["d"] = "var";
      } else o["d"] = "other";
      return std::move(o);
    }
    if (auto* m = dyn_cast<MemberExpr>(s)) {
      if (auto* vd = dyn_cast<VarDecl>(m->getMemberDecl())) {
        auto o = node("ref", s); o["n"] = vd->getQualifiedNameAsString(); o["id"] = id(vd); o["d"] = "global";
        const VarDecl* def = nullptr;
        if (const Expr* in = vd->getAnyInitializer(def)) { Expr::EvalResult r; if (in->EvaluateAsInt(r, C)) o["cv"] = r.Val.getInt().getExtValue(); }
        if (vd->getType().isConstQualified()) o["const"] = true;
        if (inRoot(vd->getLocation())) o["own"] = true;
        return std::move(o);
      }
      auto o = node("mem", s);
      o["b"] = X(m->getBase()); o["arrow"] = m->isArrow(); o["n"] = m->getMemberDecl()->getNameAsString();
      o["bt"] = ty(m->getBase()->getType());
      if (auto* fd = dyn_cast<FieldDecl>(m->getMemberDecl())) o["cls"] = rec(fd->getParent());
      return std::move(o);
    }
    if (auto* c = dyn_cast<CXXMemberCallExpr>(s)) {
      auto o = node("call", s);
      if (auto* md = c->getMethodDecl()) {
        o["c"] = callee(md);
        const Expr* ob = c->getImplicitObjectArgument();
        o["o"] = X(ob);
        o["ot"] = ty(ob->getType());
        if (auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) { o["arrow"] = me->isArrow(); if (me->hasQualifier()) o["nonvirt"] = true; }
      } else { o["fp"] = X(c->getCallee()); }
      o["a"] = argsOf(c);
      return std::move(o);
    }
    if (auto* c = dyn_cast<CXXOperatorCallExpr>(s)) {
      auto o = node("call", s);
      if (auto* f = c->getDirectCallee()) {
        o["c"] = callee(f);
        json::Array a;
        unsigned st = 0;
        if (isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) { o["o"] = X(c->getArg(0)); o["ot"] = ty(c->getArg(0)->getType()); st = 1; }
        for (unsigned i = st; i < c->getNumArgs(); i++) a.push_back(X(c->getArg(i)));
        o["a"] = std::move(a);
        o["op"] = getOperatorSpelling(c->getOperator());
      }
      return std::move(o);
    }
    if (auto* c = dyn_cast<CallExpr>(s)) {
      auto o = node("call", s);
      if (auto* f = c->getDirectCallee()) o["c"] = callee(f); else o["fp"] = X(c->getCallee());
      o["a"] = argsOf(c);
      return std::move(o);
    }
    if (auto* c = dyn_cast<CXXConstructExpr>(s)) {
      auto o = node("new_obj", s);
      o["c"] = callee(c->getConstructor());
      if (c->isElidable()) o["elide"] = true;
      if (isa<CXXTemporaryObjectExpr>(c)) o["temp"] = true;
      o["a"] = argsOf(c);
      if (c->isListInitialization()) o["list"] = true;
      if (c->requiresZeroInitialization()) o["zero"] = true;
      return std::move(o);
    }
    if (auto* c = dyn_cast<CXXInheritedCtorInitExpr>(s)) return node("opaque", s);
    if (auto* c = dyn_cast<InitListExpr>(s)) {
      const InitListExpr* sem = c->isSemanticForm() ? c : (c->getSemanticForm() ? c->getSemanticForm() : c);
      auto o = node("ilist", s);
      json::Array a;
      for (auto* x : sem->inits()) a.push_back(X(x));
      o["a"] = std::move(a);
      if (auto* rd = sem->getType()->getAsCXXRecordDecl()) {
        json::Array f;
        for (auto* fd : rd->fields()) f.push_back(fd->getNameAsString());
        o["f"] = std::move(f); o["nb"] = (int64_t)rd->getNumBases();
      }
      return std::move(o);
    }
    if (isa<ImplicitValueInitExpr>(s) || isa<CXXScalarValueInitExpr>(s)) return node("zero", s);
    if (auto* b = dyn_cast<CompoundAssignOperator>(s)) { auto o = node("cassign", s); o["op"] = b->getOpcodeStr().str(); o["a"] = X(b->getLHS()); o["b"] = X(b->getRHS()); o["ct"] = ty(b->getComputationResultType()); return std::move(o); }
    if (auto* b = dyn_cast<BinaryOperator>(s)) { auto o = node(b->getOpcode() == BO_Assign ? "assign" : "bin", s); o["op"] = b->getOpcodeStr().str(); o["a"] = X(b->getLHS()); o["b"] = X(b->getRHS()); o["at"] = ty(b->getLHS()->getType()); return std::move(o); }
    if (auto* u = dyn_cast<UnaryOperator>(s)) { auto o = node("un", s); o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str(); o["post"] = u->isPostfix(); o["e"] = X(u->getSubExpr()); return std::move(o); }
    if (auto* q = dyn_cast<ConditionalOperator>(s)) { auto o = node("cond", s); o["c"] = X(q->getCond()); o["a"] = X(q->getTrueExpr()); o["b"] = X(q->getFalseExpr()); return std::move(o); }
    if (auto* a = dyn_cast<ArraySubscriptExpr>(s)) { auto o = node("idx", s); o["b"] = X(a->getBase()); o["i"] = X(a->getIdx()); o["bt"] = ty(a->getBase()->IgnoreParenImpCasts()->getType()); return std::move(o); }
    if (auto* n = dyn_cast<CXXNewExpr>(s)) {
      auto o = node("new", s);
      o["at"] = ty(n->getAllocatedType()); o["init"] = X(n->getInitializer());
      if (n->isArray() && n->getArraySize()) o["n"] = X(*n->getArraySize());
      json::Array p; for (unsigned i = 0; i < n->getNumPlacementArgs(); i++) p.push_back(X(n->getPlacementArg(i)));
      o["pl"] = std::move(p); return std::move(o);
    }
    if (auto* n = dyn_cast<CXXDeleteExpr>(s)) { auto o = node("delete", s); o["e"] = X(n->getArgument()); return std::move(o); }
    if (auto* t = dyn_cast<CXXThrowExpr>(s)) { auto o = node("throw", s); if (t->getSubExpr()) { o["e"] = X(t->getSubExpr()); o["tt"] = ty(t->getSubExpr()->getType()); } return std::move(o); }
    if (auto* l = dyn_cast<LambdaExpr>(s)) {
      auto o = node("lambda", s);
      json::Array ps, cs;
      auto* op = l->getCallOperator();
      for (auto* p : op->parameters()) { json::Object q; q["id"] = id(p); q["n"] = p->getNameAsString(); q["t"] = ty(p->getType()); ps.push_back(std::move(q)); }
      for (auto& c : l->captures()) {
        json::Object q;
        if (c.capturesThis()) q["this"] = true;
        else if (c.capturesVariable()) { q["id"] = id(c.getCapturedVar()); q["ref"] = c.getCaptureKind() == LCK_ByRef; 
           if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar())) if (vd->isInitCapture()) q["init"] = X(vd->getInit()); }
        cs.push_back(std::move(q));
      }
      o["p"] = std::move(ps); o["cap"] = std::move(cs);
      o["body"] = X(l->getBody()); o["key"] = key(op);
      return std::move(o);
    }
    if (auto* u = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      auto o = node("sizeof", s);
      Expr::EvalResult r;
      if (!u->isValueDependent() && u->EvaluateAsInt(r, C)) o["v"] = r.Val.getInt().getExtValue();
      return std::move(o);
    }
    // statements
    if (auto* b = dyn_cast<CompoundStmt>(s)) { auto o = node("blk", s); json::Array a; for (auto* x : b->body()) a.push_back(X(x)); o["s"] = std::move(a); return std::move(o); }
    if (auto* i = dyn_cast<IfStmt>(s)) { auto o = node("if", s); if (i->getInit()) o["init"] = X(i->getInit()); if (i->getConditionVariableDeclStmt()) o["cv"] = X(i->getConditionVariableDeclStmt()); o["c"] = X(i->getCond()); o["a"] = X(i->getThen()); o["b"] = X(i->getElse()); return std::move(o); }
    if (auto* f = dyn_cast<ForStmt>(s)) { auto o = node("for", s); o["init"] = X(f->getInit()); o["c"] = X(f->getCond()); o["inc"] = X(f->getInc()); o["body"] = X(f->getBody()); return std::move(o); }
    if (auto* w = dyn_cast<WhileStmt>(s)) { auto o = node("while", s); o["c"] = X(w->getCond()); o["body"] = X(w->getBody()); return std::move(o); }
    if (auto* w = dyn_cast<DoStmt>(s)) { auto o = node("do", s); o["c"] = X(w->getCond()); o["body"] = X(w->getBody()); return std::move(o); }
    if (auto* r = dyn_cast<CXXForRangeStmt>(s)) {
      auto o = node("rfor", s);
      o["range"] = X(r->getRangeInit()); o["rt"] = ty(r->getRangeInit()->getType());
      json::Object v; auto* lv = r->getLoopVariable();
      v["id"] = id(lv); v["n"] = lv->getNameAsString(); v["t"] = ty(lv->getType());
      o["var"] = std::move(v); o["body"] = X(r->getBody());
      return std::move(o);
    }
    if (auto* r = dyn_cast<ReturnStmt>(s)) { auto o = node("ret", s); if (r->getRetValue()) o["e"] = X(r->getRetValue()); return std::move(o); }
    if (auto* d = dyn_cast<DeclStmt>(s)) {
      auto o = node("decl", s);
      json::Array a;
      for (auto* x : d->decls()) if (auto* v = dyn_cast<VarDecl>(x)) a.push_back(var(v));
      o["v"] = std::move(a);
      return std::move(o);
    }
    if (isa<BreakStmt>(s)) return node("break", s);
    if (isa<ContinueStmt>(s)) return node("cont", s);
    if (isa<NullStmt>(s)) return node("nop", s);
    if (auto* w = dyn_cast<SwitchStmt>(s)) { auto o = node("switch", s); o["c"] = X(w->getCond()); o["body"] = X(w->getBody()); return std::move(o); }
    if (auto* c = dyn_cast<CaseStmt>(s)) {
      auto o = node("case", s); Expr::EvalResult r;
      if (c->getLHS()->EvaluateAsInt(r, C)) o["v"] = r.Val.getInt().getExtValue();
      o["s"] = X(c->getSubStmt()); return std::move(o);
    }
    if (auto* c = dyn_cast<DefaultStmt>(s)) { auto o = node("default", s); o["s"] = X(c->getSubStmt()); return std::move(o); }
    if (auto* t = dyn_cast<CXXTryStmt>(s)) {
      auto o = node("try", s); o["b"] = X(t->getTryBlock()); json::Array h;
      for (unsigned i = 0; i < t->getNumHandlers(); i++) {
        json::Object q; auto* hd = t->getHandler(i);
        if (hd->getExceptionDecl()) { q["t"] = ty(hd->getCaughtType()); q["id"] = id(hd->getExceptionDecl()); }
        q["b"] = X(hd->getHandlerBlock()); h.push_back(std::move(q));
      }
      o["h"] = std::move(h); return std::move(o);
    }
    if (auto* a = dyn_cast<AttributedStmt>(s)) return X(a->getSubStmt());
    auto o = node("opaque", s);
    o["cls"] = s->getStmtClassName();
    return std::move(o);
  }
  json::Object var(const VarDecl* v) {
    json::Object q;
    q["id"] = id(v); q["n"] = v->getNameAsString(); q["t"] = ty(v->getType()); q["l"] = line(v->getLocation());
    if (v->isStaticLocal()) {
      q["static"] = true;
      const Expr* in = v->getInit();
      q["constinit"] = !in || v->isConstexpr() || (!in->isValueDependent() && in->isConstantInitializer(C, v->getType()->isReferenceType()));
    }
    if (v->getType().isConstQualified() || v->isConstexpr()) q["const"] = true;
    if (v->getInit()) q["init"] = X(v->getInit());
    return q;
  }
  void function(const FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext()) return;
    if (!seen.insert(f).second) return;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return;
    json::Object o = callee(f);
    o["k"] = "fn";
    o["file"] = file(f->getLocation()); o["l"] = line(f->getLocation()); o["el"] = line(f->getEndLoc());
    json::Array ps;
    for (auto* p : f->parameters()) { json::Object q; q["id"] = id(p); q["n"] = p->getNameAsString(); q["t"] = ty(p->getType()); ps.push_back(std::move(q)); }
    o["p"] = std::move(ps);
    if (f->isStatic()) o["internal"] = true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      json::Array ov;
      for (auto* x : m->overridden_methods()) { json::Object q; q["n"] = x->getQualifiedNameAsString(); q["key"] = key(x); ov.push_back(std::move(q)); }
      o["ov"] = std::move(ov);
      o["acc"] = (int)m->getAccess();
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array in;
      for (auto* i : c->inits()) {
        json::Object q;
        if (i->isAnyMemberInitializer()) { q["f"] = i->getAnyMember()->getNameAsString(); q["ft"] = ty(i->getAnyMember()->getType()); }
        else if (i->isBaseInitializer()) q["base"] = ty(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) q["deleg"] = true;
        q["e"] = X(i->getInit()); q["l"] = line(i->getSourceLocation());
        q["written"] = i->isWritten();
        in.push_back(std::move(q));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = X(f->getBody());
    funcs.push_back(std::move(o));
  }
  void record(const CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return;
    if (!seen.insert(r).second) return;
    json::Object o;
    o["n"] = rec(r); o["q"] = r->getQualifiedNameAsString(); o["file"] = file(r->getLocation()); o["l"] = line(r->getLocation());
    json::Array f, b, m;
    for (auto* fd : r->fields()) {
      json::Object q; q["n"] = fd->getNameAsString(); q["t"] = ty(fd->getType()); q["mutable"] = fd->isMutable(); q["acc"] = (int)fd->getAccess();
      if (fd->hasInClassInitializer() && fd->getInClassInitializer()) q["init"] = X(fd->getInClassInitializer());
      f.push_back(std::move(q));
    }
    for (auto& x : r->bases()) b.push_back(ty(x.getType()));
    for (auto* md : r->methods()) {
      json::Object q = callee(md); q["acc"] = (int)md->getAccess(); q["deleted"] = md->isDeleted(); q["pure"] = md->isPureVirtual();
      q["implicit"] = md->isImplicit();
      if (auto* cd = dyn_cast<CXXConstructorDecl>(md)) { q["copyc"] = cd->isCopyConstructor(); q["movec"] = cd->isMoveConstructor(); }
      q["copya"] = md->isCopyAssignmentOperator(); q["movea"] = md->isMoveAssignmentOperator();
      m.push_back(std::move(q));
    }
    o["f"] = std::move(f); o["b"] = std::move(b); o["m"] = std::move(m);
    records.push_back(std::move(o));
  }
  void global(const VarDecl* v) {
    if (!v->hasGlobalStorage() || isa<ParmVarDecl>(v)) return;
    if (v->getDeclContext()->isDependentContext()) return;
    if (!seen.insert(v).second) return;
    json::Object o;
    o["n"] = v->getQualifiedNameAsString(); o["t"] = ty(v->getType()); o["file"] = file(v->getLocation()); o["l"] = line(v->getLocation());
    bool isconst = v->isConstexpr();
    QualType q = v->getType();
    if (!isconst) {
      while (q->isArrayType()) q = QualType(q->getArrayElementTypeNoTypeQual(), 0);
      isconst = v->getType().isConstQualified() || q.isConstQualified();
    }
    bool ci = true;
    { const VarDecl* def = nullptr; if (const Expr* in = v->getAnyInitializer(def)) ci = def->isConstexpr() || (!in->isValueDependent() && in->isConstantInitializer(C, def->getType()->isReferenceType())); }
    o["constinit"] = ci;
    o["const"] = isconst; o["staticlocal"] = v->isStaticLocal(); o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
    globals.push_back(std::move(o));
  }
};
class V : public RecursiveASTVisitor<V> {
 public:
  Exporter& X;
  explicit V(Exporter& x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseNamespaceDecl(NamespaceDecl* n) {
    if (!n->getParent() || !n->getParent()->isTranslationUnit() ) return RecursiveASTVisitor<V>::TraverseNamespaceDecl(n);
    std::string s = n->getNameAsString();
    if (s == "std" || s == "Eigen" || s == "__gnu_cxx") return true;
    return RecursiveASTVisitor<V>::TraverseNamespaceDecl(n);
  }
  bool VisitFunctionDecl(FunctionDecl* f) { if (X.inRoot(f->getLocation()) || X.SM.isInMainFile(X.SM.getExpansionLoc(f->getLocation()))) X.function(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) { if (X.inRoot(r->getLocation())) X.record(r); return true; }
  bool VisitEnumDecl(EnumDecl* d) {
    if (!X.inRoot(d->getLocation())) return true;
    json::Object o, vs;
    for (auto* c : d->enumerators()) vs[c->getNameAsString()] = c->getInitVal().getExtValue();
    o["n"] = d->getQualifiedNameAsString(); o["v"] = std::move(vs);
    X.enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl* v) { if (X.inRoot(v->getLocation())) X.global(v); return true; }
};
static std::string OutPath;
class Consumer : public ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    Exporter x(C);
    V v(x);
    v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o;
    o["functions"] = std::move(x.funcs); o["records"] = std::move(x.records); o["globals"] = std::move(x.globals); o["enums"] = std::move(x.enums);
    o["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    os << json::Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, char** argv) {
  // export ROOT IN.cc OUT.json flags...
  if (argc < 4) return 2;
  Root = argv[1];
  if (Root.back() != '/') Root += '/';
  OutPath = argv[3];
  std::ifstream in(argv[2]);
  if (!in) { llvm::errs() << "cannot read " << argv[2] << "\n"; return 2; }
  std::string code((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  std::vector<std::string> flags(argv + 4, argv + argc);
  flags.push_back("-fsyntax-only");
  flags.push_back("-w");
  bool ok = tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), code, flags, argv[2], "fbstab-export");
  return ok ? 0 : 3;
}
