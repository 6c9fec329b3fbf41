// pifacts: dumps a compact, name- and type-resolved syntax tree of every function that is defined
// under a source root, together with class, variable and OpenMP facts, as JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;

static std::string gRoot, gOut;

static std::string jesc(llvm::StringRef s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default:
            if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += c;
        }
    }
    return o + "\"";
}

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<const Decl *, int> ids;
    std::map<std::string, int> types;
    std::vector<std::string> typev;
    std::string out;
    explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true;
        PP.PrintCanonicalTypes = true; PP.SuppressInlineNamespace = true;
        PP.AnonymousTagLocations = false;
    }
    int id(const Decl *d) {
        d = d->getCanonicalDecl();
        return ids.emplace(d, (int)ids.size() + 1).first->second;
    }
    int ty(QualType t) {
        std::string s = t.isNull() ? "?" : t.getCanonicalType().getAsString(PP);
        auto r = types.emplace(s, (int)typev.size());
        if (r.second) typev.push_back(s);
        return r.first->second;
    }
    std::string qn(const NamedDecl *d) {
        std::string s; llvm::raw_string_ostream os(s);
        PrintingPolicy p = PP; p.SuppressTemplateArgsInCXXConstructors = true;
        // class template arguments are left out: members of SystemBase<T> are SystemBase::x
        std::vector<std::string> parts;
        const DeclContext *dc = d->getDeclContext();
        std::string last;
        if (auto *fd = dyn_cast<FunctionDecl>(d)) { 
            last = isa<CXXConstructorDecl>(fd) || isa<CXXDestructorDecl>(fd) || isa<CXXConversionDecl>(fd) ? "" : fd->getNameAsString();
            if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) last = cd->getParent()->getNameAsString();
            else if (auto *dd = dyn_cast<CXXDestructorDecl>(fd)) last = "~" + dd->getParent()->getNameAsString();
            else if (auto *cv = dyn_cast<CXXConversionDecl>(fd)) last = "operator " + cv->getConversionType().getAsString(PP);
        } else last = d->getNameAsString();
        parts.push_back(last);
        while (dc) {
            if (auto *ns = dyn_cast<NamespaceDecl>(dc)) { if (!ns->isInline() && !ns->isAnonymousNamespace()) parts.push_back(ns->getNameAsString()); }
            else if (auto *rd = dyn_cast<CXXRecordDecl>(dc)) { parts.push_back(rd->isLambda() ? "(lambda)" : rd->getNameAsString()); }
            else if (auto *ed = dyn_cast<EnumDecl>(dc)) { if (ed->isScoped()) parts.push_back(ed->getNameAsString()); }
            else if (auto *fd = dyn_cast<FunctionDecl>(dc)) { parts.push_back(fd->getNameAsString()); }
            dc = dc->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!s.empty()) os << "::"; os << *it; os.flush(); }
        return s;
    }
    std::string usr(const Decl *d) {
        llvm::SmallString<256> b;
        if (index::generateUSRForDecl(d, b)) return "?" + std::to_string(id(d));
        return std::string(b);
    }
    bool inRoot(SourceLocation l) {
        if (l.isInvalid()) return false;
        auto f = SM.getFilename(SM.getExpansionLoc(l));
        return f.starts_with(gRoot);
    }
    std::string fileOf(SourceLocation l) { return std::string(SM.getFilename(SM.getExpansionLoc(l))); }
    int line(SourceLocation l) { return l.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(l); }

    void key(const char *k) { if (out.back() != '{') out += ','; out += '"'; out += k; out += "\":"; }
    void kv(const char *k, llvm::StringRef v) { key(k); out += jesc(v); }
    void kv(const char *k, const char *v) { key(k); out += jesc(v); }
    void kv(const char *k, int v) { key(k); out += std::to_string(v); }
    void open(const char *k, const Stmt *s) { out += "{"; kv("k", k); if (s) { int l = line(s->getBeginLoc()); if (l) kv("l", l); } }
    void close() { out += "}"; }
    template <class R> void list(const char *k, R &&r) {
        key(k); out += "["; bool first = true;
        for (auto *x : r) { if (!first) out += ","; first = false; stmt(x); }
        out += "]";
    }
    void sub(const char *k, const Stmt *s) { if (s) { key(k); stmt(s); } }

    void varRef(const ValueDecl *v) {
        kv("n", v->getNameAsString());
        kv("i", id(v));
        if (auto *vd = dyn_cast<VarDecl>(v)) {
            const char *w = isa<ParmVarDecl>(vd) ? "param" : vd->isStaticDataMember() ? "smember" : vd->isStaticLocal() ? "static" : vd->hasGlobalStorage() ? "global" : "local";
            kv("w", w);
            if (vd->hasGlobalStorage()) kv("q", qn(vd));
        } else if (isa<FieldDecl>(v)) { kv("w", "field"); kv("q", qn(v)); }
        else if (isa<EnumConstantDecl>(v)) { kv("w", "enum"); kv("q", qn(v)); kv("val", (int)cast<EnumConstantDecl>(v)->getInitVal().getExtValue()); }
        else if (isa<FunctionDecl>(v)) { kv("w", "fn"); kv("q", qn(v)); kv("u", usr(v)); }
        else if (isa<BindingDecl>(v)) { kv("w", "binding"); }
        else kv("w", "other");
        kv("t", ty(v->getType()));
    }
    void callee(const FunctionDecl *f) {
        if (!f) return;
        const FunctionDecl *def = nullptr;
        kv("fn", qn(f));
        if (f->isDefined(def) && inRoot(def->getLocation())) kv("u", usr(def));
        else if (inRoot(f->getLocation())) kv("u", usr(f));
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->isVirtual()) kv("virt", 1);
            if (m->isConst()) kv("const", 1);
            if (m->isStatic()) kv("stat", 1);
        }
        // parameter types
        key("pt"); out += "["; bool first = true;
        for (auto *p : f->parameters()) { if (!first) out += ","; first = false; out += std::to_string(ty(p->getType())); }
        out += "]";
        if (auto *pt = f->getPrimaryTemplate()) {
            auto *pf = pt->getTemplatedDecl(); bool any = false; std::string s; unsigned i = 0, np = pf->getNumParams();
            for (auto *p : f->parameters()) {
                unsigned j = i < np ? i : (np ? np - 1 : 0);
                if (np && p->getType()->isLValueReferenceType()) {
                    QualType q = pf->getParamDecl(j)->getType();
                    if (auto *pe = q->getAs<PackExpansionType>()) q = pe->getPattern();
                    if (q->isRValueReferenceType()) { s += (any ? "," : "") + std::to_string(i); any = true; }
                }
                ++i;
            }
            if (any) { key("fw"); out += "[" + s + "]"; }
        }
        if (const auto *ta = f->getTemplateSpecializationArgs()) { targs(ta->asArray()); }
    }
    void targs(llvm::ArrayRef<TemplateArgument> a) {
        key("ta"); out += "["; bool first = true;
        for (auto &x : a) {
            if (!first) out += ",";
            first = false;
            std::string s; llvm::raw_string_ostream os(s); x.print(PP, os, true); os.flush(); out += jesc(s);
        }
        out += "]";
    }
    void varDecl(const VarDecl *v) {
        out += "{"; kv("k", "Var"); kv("l", line(v->getLocation())); kv("n", v->getNameAsString()); kv("i", id(v)); kv("t", ty(v->getType()));
        if (v->isStaticLocal()) kv("static", 1);
        if (v->getTSCSpec() != TSCS_unspecified) kv("tls", 1);
        if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
            key("bind"); out += "["; bool f = true;
            for (auto *b : dd->bindings()) { if (!f) out += ","; f = false; out += "{"; kv("n", b->getNameAsString()); kv("i", id(b)); if (b->getBinding()) sub("e", b->getBinding()); out += "}"; }
            out += "]";
        }
        if (v->getInit()) { sub("init", v->getInit()); }
        close();
    }
    void cval(const Expr *e) {
        if (e->isValueDependent() || e->isTypeDependent() || e->isInstantiationDependent() || !e->getType()->isArithmeticType()) return;
        Expr::EvalResult r;
        if (!e->EvaluateAsRValue(r, C) || r.HasSideEffects) return;
        if (r.Val.isInt()) kv("cval", llvm::toString(r.Val.getInt(), 10));
        else if (r.Val.isFloat()) { bool li; auto f = r.Val.getFloat(); f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); char b[64]; snprintf(b, 64, "%.17g", f.convertToDouble()); kv("cval", (const char*)b); }
    }
    void arg(const Stmt *s) { stmt(s); }

    void stmt(const Stmt *s) {
        if (!s) { out += "null"; return; }
        switch (s->getStmtClass()) {
        // transparent wrappers
        case Stmt::ParenExprClass: return stmt(cast<ParenExpr>(s)->getSubExpr());
        case Stmt::ExprWithCleanupsClass: case Stmt::ConstantExprClass: return stmt(cast<FullExpr>(s)->getSubExpr());
        case Stmt::MaterializeTemporaryExprClass: return stmt(cast<MaterializeTemporaryExpr>(s)->getSubExpr());
        case Stmt::CXXBindTemporaryExprClass: return stmt(cast<CXXBindTemporaryExpr>(s)->getSubExpr());
        case Stmt::SubstNonTypeTemplateParmExprClass: return stmt(cast<SubstNonTypeTemplateParmExpr>(s)->getReplacement());
        case Stmt::CXXDefaultArgExprClass: { out += "{"; kv("k", "DefArg"); auto *d = cast<CXXDefaultArgExpr>(s); sub("e", d->getExpr()); close(); return; }
        case Stmt::CXXDefaultInitExprClass: { open("DefInit", s); sub("e", cast<CXXDefaultInitExpr>(s)->getExpr()); close(); return; }
        case Stmt::CXXStdInitializerListExprClass: return stmt(cast<CXXStdInitializerListExpr>(s)->getSubExpr());
        case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
        case Stmt::CXXRewrittenBinaryOperatorClass: return stmt(cast<CXXRewrittenBinaryOperator>(s)->getSemanticForm());
        case Stmt::OpaqueValueExprClass: return stmt(cast<OpaqueValueExpr>(s)->getSourceExpr());
        default: break;
        }
        if (auto *e = dyn_cast<CastExpr>(s)) {
            auto ck = e->getCastKind();
            bool transparent = isa<ImplicitCastExpr>(e) && (ck == CK_LValueToRValue || ck == CK_NoOp || ck == CK_FunctionToPointerDecay || ck == CK_ArrayToPointerDecay || ck == CK_UncheckedDerivedToBase || ck == CK_DerivedToBase || ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion || ck == CK_BuiltinFnToFnPtr);
            if (transparent) return stmt(e->getSubExpr());
            if (isa<CXXFunctionalCastExpr>(e) && (ck == CK_ConstructorConversion || ck == CK_NoOp)) return stmt(e->getSubExpr());
            open("Cast", s); kv("ck", CastExpr::getCastKindName(ck)); if (!isa<ImplicitCastExpr>(e)) kv("ex", 1); kv("t", ty(e->getType())); sub("e", e->getSubExpr()); close(); return;
        }
        if (auto *d = dyn_cast<DeclRefExpr>(s)) { open("Ref", s); varRef(d->getDecl()); 
            if (auto *bd = dyn_cast<BindingDecl>(d->getDecl())) { if (auto *hv = bd->getHoldingVar()) kv("hv", id(hv)); }
            if (auto *vd = dyn_cast<VarDecl>(d->getDecl())) if (vd->hasGlobalStorage() && vd->getType().isConstQualified()) cval(d);
            if (d->refersToEnclosingVariableOrCapture()) kv("cap", 1); close(); return; }
        if (auto *m = dyn_cast<MemberExpr>(s)) {
            open("Mem", s); auto *vd = m->getMemberDecl(); varRef(vd);
            if (m->isArrow()) kv("arrow", 1);
            if (auto *fd = dyn_cast<FieldDecl>(vd)) if (fd->isMutable()) kv("mut", 1);
            sub("b", m->getBase()); close(); return; }
        if (isa<CXXThisExpr>(s)) { open("This", s); if (cast<CXXThisExpr>(s)->isImplicit()) kv("impl", 1); kv("t", ty(cast<Expr>(s)->getType())); close(); return; }
        if (auto *c = dyn_cast<CXXOperatorCallExpr>(s)) {
            open("OpCall", s); kv("op", getOperatorSpelling(c->getOperator())); callee(dyn_cast_or_null<FunctionDecl>(c->getCalleeDecl()));
            if (auto *mm = dyn_cast_or_null<CXXMethodDecl>(c->getCalleeDecl())) { kv("mem", 1); if (mm->getParent()->isLambda()) kv("lam", 1); }
            else if (!c->getCalleeDecl()) sub("ce", c->getCallee());
            kv("t", ty(c->getType())); list("a", c->arguments()); close(); return; }
        if (auto *c = dyn_cast<CXXMemberCallExpr>(s)) {
            open("MCall", s); callee(c->getMethodDecl());
            sub("o", c->getImplicitObjectArgument());
            if (auto *me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) { if (me->hasQualifier()) kv("nonvirt", 1); }
            kv("t", ty(c->getType())); kv("ot", ty(c->getImplicitObjectArgument() ? c->getImplicitObjectArgument()->getType() : QualType())); list("a", c->arguments()); close(); return; }
        if (auto *c = dyn_cast<CallExpr>(s)) {
            open("Call", s);
            auto *fd = dyn_cast_or_null<FunctionDecl>(c->getCalleeDecl());
            if (fd) callee(fd); else sub("ce", c->getCallee());
            if (fd && fd->isConstexpr() && c->getNumArgs() == 0) cval(c);
            kv("t", ty(c->getType())); list("a", c->arguments()); close(); return; }
        if (auto *c = dyn_cast<CXXConstructExpr>(s)) {
            auto *cd = c->getConstructor();
            open("Ctor", s); callee(cd); kv("t", ty(c->getType()));
            if (cd->isCopyConstructor()) kv("copy", 1); else if (cd->isMoveConstructor()) kv("move", 1);
            if (c->isListInitialization()) kv("brace", 1);
            list("a", c->arguments()); close(); return; }
        if (auto *c = dyn_cast<CXXInheritedCtorInitExpr>(s)) { open("Ctor", s); callee(c->getConstructor()); kv("t", ty(c->getType())); out += ",\"a\":[]"; close(); return; }
        if (auto *c = dyn_cast<CXXUnresolvedConstructExpr>(s)) { open("Ctor", s); kv("t", ty(c->getTypeAsWritten())); kv("dep", 1); list("a", c->arguments()); close(); return; }
        if (auto *c = dyn_cast<CXXScalarValueInitExpr>(s)) { open("Ctor", s); kv("t", ty(c->getType())); out += ",\"a\":[]"; close(); return; }
        if (auto *c = dyn_cast<ImplicitValueInitExpr>(s)) { open("ValueInit", s); kv("t", ty(c->getType())); close(); return; }
        if (auto *l = dyn_cast<LambdaExpr>(s)) {
            open("Lambda", s); auto *op = l->getCallOperator(); kv("i", id(op)); kv("u", usr(op)); 
            key("cap"); out += "["; bool f = true;
            auto ii = l->capture_init_begin();
            for (auto &cp : l->captures()) { if (!f) out += ","; f = false; out += "{"; 
                if (cp.capturesThis()) kv("this", 1);
                else if (cp.capturesVariable()) { kv("n", cp.getCapturedVar()->getNameAsString()); kv("i", id(cp.getCapturedVar())); kv("ref", cp.getCaptureKind() == LCK_ByRef ? 1 : 0); if (*ii) sub("init", *ii); }
                out += "}"; ++ii; }
            out += "]";
            params(op); 
            // generic lambda: use the pattern body
            sub("body", l->getBody()); close(); return; }
        if (auto *i = dyn_cast<InitListExpr>(s)) {
            if (i->isTransparent() && i->getNumInits() == 1) return stmt(i->getInit(0));
            open("InitList", s); kv("t", ty(i->getType())); list("a", i->inits()); 
            if (auto *rt = i->getType()->getAsCXXRecordDecl()) { key("flds"); out += "["; bool f = true; for (auto *fd : rt->fields()) { if (!f) out += ","; f = false; out += jesc(qn(fd)); } out += "]"; }
            close(); return; }
        if (auto *u = dyn_cast<UnaryOperator>(s)) { open("Un", s); kv("op", UnaryOperator::getOpcodeStr(u->getOpcode())); if (u->isPostfix()) kv("post", 1); kv("t", ty(u->getType())); sub("e", u->getSubExpr()); close(); return; }
        if (auto *b = dyn_cast<BinaryOperator>(s)) { open(b->isAssignmentOp() ? "Asg" : "Bin", s); kv("op", b->getOpcodeStr()); kv("t", ty(b->getType())); sub("x", b->getLHS()); sub("y", b->getRHS()); close(); return; }
        if (auto *c = dyn_cast<AbstractConditionalOperator>(s)) { open("Cond", s); kv("t", ty(c->getType())); sub("c", c->getCond()); sub("x", c->getTrueExpr()); sub("y", c->getFalseExpr()); close(); return; }
        if (auto *a = dyn_cast<ArraySubscriptExpr>(s)) { open("Sub", s); kv("t", ty(a->getType())); sub("b", a->getBase()); sub("x", a->getIdx()); close(); return; }
        if (auto *l = dyn_cast<IntegerLiteral>(s)) { open("Int", s); kv("v", llvm::toString(l->getValue(), 10, false)); close(); return; }
        if (auto *l = dyn_cast<CharacterLiteral>(s)) { open("Char", s); kv("v", (int)l->getValue()); close(); return; }
        if (auto *l = dyn_cast<FloatingLiteral>(s)) { open("Flt", s); char b[64]; snprintf(b, 64, "%.17g", l->getValue().convertToDouble()); kv("v", (const char*)b); close(); return; }
        if (auto *l = dyn_cast<CXXBoolLiteralExpr>(s)) { open("Bool", s); kv("v", l->getValue() ? 1 : 0); close(); return; }
        if (auto *l = dyn_cast<StringLiteral>(s)) { open("Str", s); kv("v", l->getCharByteWidth() == 1 ? l->getString() : llvm::StringRef("?wide")); close(); return; }
        if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) { open("Null", s); close(); return; }
        if (auto *l = dyn_cast<ImaginaryLiteral>(s)) { open("Imag", s); sub("e", l->getSubExpr()); close(); return; }
        if (auto *u = dyn_cast<UserDefinedLiteral>(s)) { open("Call", s); callee(dyn_cast_or_null<FunctionDecl>(u->getCalleeDecl())); kv("t", ty(u->getType())); list("a", u->arguments()); close(); return; }
        if (auto *u = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) { open("SizeOf", s); kv("ty", u->isArgumentType() ? ty(u->getArgumentType()) : ty(u->getArgumentExpr()->getType())); 
            Expr::EvalResult r; if (!u->isValueDependent() && u->EvaluateAsInt(r, C)) kv("v", llvm::toString(r.Val.getInt(), 10));
            close(); return; }
        if (auto *n = dyn_cast<CXXNewExpr>(s)) { open("New", s); kv("t", ty(n->getAllocatedType())); if (n->isArray() && n->getArraySize()) sub("sz", *n->getArraySize()); sub("init", n->getInitializer()); close(); return; }
        if (auto *d = dyn_cast<CXXDeleteExpr>(s)) { open("Delete", s); sub("e", d->getArgument()); close(); return; }
        if (auto *t = dyn_cast<CXXThrowExpr>(s)) { open("Throw", s); if (t->getSubExpr()) sub("e", t->getSubExpr()); close(); return; }
        if (auto *t = dyn_cast<CXXTypeidExpr>(s)) { open("TypeId", s); if (t->isTypeOperand()) kv("ty", ty(t->getTypeOperand(C))); if (!t->isTypeOperand()) sub("e", t->getExprOperand()); close(); return; }
        if (auto *d = dyn_cast<CXXDependentScopeMemberExpr>(s)) { open("DMem", s); kv("n", d->getMember().getAsString()); if (!d->isImplicitAccess()) sub("b", d->getBase()); close(); return; }
        if (auto *d = dyn_cast<UnresolvedMemberExpr>(s)) { open("DMem", s); kv("n", d->getMemberName().getAsString()); if (!d->isImplicitAccess()) sub("b", d->getBase()); close(); return; }
        if (auto *d = dyn_cast<UnresolvedLookupExpr>(s)) { open("DRef", s); kv("n", d->getName().getAsString()); close(); return; }
        if (auto *d = dyn_cast<DependentScopeDeclRefExpr>(s)) { open("DRef", s); kv("n", d->getDeclName().getAsString()); close(); return; }
        // statements
        if (auto *c = dyn_cast<CompoundStmt>(s)) { open("Block", s); kv("e", line(c->getEndLoc())); list("s", c->body()); close(); return; }
        if (auto *d = dyn_cast<DeclStmt>(s)) {
            open("Decl", s); key("d"); out += "["; bool f = true;
            for (auto *x : d->decls()) if (auto *v = dyn_cast<VarDecl>(x)) { if (!f) out += ","; f = false; varDecl(v); }
            out += "]"; close(); return; }
        if (auto *i = dyn_cast<IfStmt>(s)) { open("If", s); if (i->isConstexpr()) kv("cx", 1); sub("init", i->getInit()); if (i->getConditionVariable()) { key("cv"); varDecl(i->getConditionVariable()); } sub("c", i->getCond()); sub("x", i->getThen()); sub("y", i->getElse()); close(); return; }
        if (auto *f = dyn_cast<ForStmt>(s)) { open("For", s); sub("init", f->getInit()); if (f->getConditionVariable()) { key("cv"); varDecl(f->getConditionVariable()); } sub("c", f->getCond()); sub("inc", f->getInc()); sub("body", f->getBody()); close(); return; }
        if (auto *f = dyn_cast<CXXForRangeStmt>(s)) { open("RFor", s); sub("init", f->getInit()); key("v"); varDecl(f->getLoopVariable()); sub("r", f->getRangeInit()); sub("body", f->getBody()); close(); return; }
        if (auto *w = dyn_cast<WhileStmt>(s)) { open("While", s); if (w->getConditionVariable()) { key("cv"); varDecl(w->getConditionVariable()); } sub("c", w->getCond()); sub("body", w->getBody()); close(); return; }
        if (auto *w = dyn_cast<DoStmt>(s)) { open("DoWhile", s); sub("c", w->getCond()); sub("body", w->getBody()); close(); return; }
        if (auto *r = dyn_cast<ReturnStmt>(s)) { open("Return", s); if (r->getRetValue()) sub("e", r->getRetValue()); close(); return; }
        if (isa<BreakStmt>(s)) { open("Break", s); close(); return; }
        if (isa<ContinueStmt>(s)) { open("Continue", s); close(); return; }
        if (isa<NullStmt>(s)) { open("Block", s); out += ",\"s\":[]"; close(); return; }
        if (auto *w = dyn_cast<SwitchStmt>(s)) { open("Switch", s); sub("c", w->getCond()); sub("body", w->getBody()); close(); return; }
        if (auto *c = dyn_cast<CaseStmt>(s)) { open("Case", s); sub("v", c->getLHS()); sub("s", c->getSubStmt()); close(); return; }
        if (auto *c = dyn_cast<DefaultStmt>(s)) { open("Default", s); sub("s", c->getSubStmt()); close(); return; }
        if (auto *t = dyn_cast<CXXTryStmt>(s)) { open("Try", s); sub("b", t->getTryBlock()); key("h"); out += "["; for (unsigned i = 0; i < t->getNumHandlers(); ++i) { if (i) out += ","; auto *h = t->getHandler(i); out += "{"; kv("k", "Catch"); if (h->getExceptionDecl()) { kv("ct", ty(h->getCaughtType())); key("v"); varDecl(h->getExceptionDecl()); } sub("b", h->getHandlerBlock()); out += "}"; } out += "]"; close(); return; }
        if (auto *o = dyn_cast<OMPExecutableDirective>(s)) {
            open("OMP", s); kv("d", llvm::omp::getOpenMPDirectiveName(o->getDirectiveKind()).str());
            if (auto *cr = dyn_cast<OMPCriticalDirective>(o)) kv("name", cr->getDirectiveName().getName().getAsString());
            key("cl"); out += "["; bool f = true;
            for (auto *c : o->clauses()) { if (!c) continue; if (!f) out += ","; f = false; out += "{"; kv("c", llvm::omp::getOpenMPClauseName(c->getClauseKind()).str());
                auto vars = [&](auto *cc) { key("vars"); out += "["; bool g = true; for (auto *e : cc->varlists()) { if (!g) out += ","; g = false; stmt(e); } out += "]"; };
                if (auto *x = dyn_cast<OMPPrivateClause>(c)) vars(x);
                else if (auto *x = dyn_cast<OMPFirstprivateClause>(c)) vars(x);
                else if (auto *x = dyn_cast<OMPLastprivateClause>(c)) vars(x);
                else if (auto *x = dyn_cast<OMPSharedClause>(c)) vars(x);
                else if (auto *x = dyn_cast<OMPReductionClause>(c)) vars(x);
                out += "}"; }
            out += "]";
            if (o->hasAssociatedStmt() && o->getAssociatedStmt()) { const Stmt *b = o->getRawStmt(); while (auto *cs = dyn_cast_or_null<CapturedStmt>(b)) b = cs->getCapturedStmt(); sub("body", b); }
            close(); return; }
        if (auto *cs = dyn_cast<CapturedStmt>(s)) return stmt(cs->getCapturedStmt());
        if (auto *cl = dyn_cast<OMPCanonicalLoop>(s)) return stmt(cl->getLoopStmt());
        // anything else: keep kind and children
        open("Other", s); kv("cls", s->getStmtClassName());
        list("a", s->children()); close();
    }
    void params(const FunctionDecl *f) {
        key("p"); out += "["; bool first = true;
        for (auto *p : f->parameters()) { if (!first) out += ","; first = false; out += "{"; kv("n", p->getNameAsString()); kv("i", id(p)); kv("t", ty(p->getType())); if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) sub("def", p->getDefaultArg()); out += "}"; }
        out += "]";
    }
    bool firstFn = true;
    std::set<const Decl *> done;
    void function(const FunctionDecl *f) {
        if (!f->doesThisDeclarationHaveABody() || !f->getBody()) {
            if (!(isa<CXXConstructorDecl>(f) && f->isDefined())) return;
        }
        if (!f->doesThisDeclarationHaveABody()) return;
        if (!done.insert(f).second) return;
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) { /* generic lambda instantiations are dumped as functions */ if (!f->isTemplateInstantiation()) return; }
        if (!firstFn) out += ",\n"; firstFn = false;
        out += "{"; kv("fn", qn(f)); kv("u", usr(f)); kv("f", fileOf(f->getLocation())); kv("l", line(f->getLocation())); kv("le", line(f->getEndLoc())); kv("t", ty(f->getReturnType()));
        if (f->isDependentContext()) kv("dep", 1);
        if (f->isTemplateInstantiation()) kv("inst", 1);
        if (f->isImplicit()) kv("impl", 1);
        if (f->isDefaulted()) kv("defaulted", 1);
        if (auto *ta = f->getTemplateSpecializationArgs()) targs(ta->asArray());
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            kv("cls", qn(m->getParent())); kv("clsu", usr(m->getParent())); kv("clst", ty(C.getRecordType(m->getParent())));
            if (m->isConst()) kv("const", 1);
            if (m->isStatic()) kv("stat", 1);
            if (m->isVirtual()) kv("virt", 1);
            kv("acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private");
            key("ov"); out += "["; bool fr = true; for (auto *o : m->overridden_methods()) { if (!fr) out += ","; fr = false; out += jesc(usr(o)); } out += "]";
        }
        if (isa<CXXConstructorDecl>(f)) { kv("kind", "ctor"); auto *cd = cast<CXXConstructorDecl>(f); if (cd->isCopyConstructor()) kv("copy", 1); if (cd->isMoveConstructor()) kv("move", 1); if (cd->isDelegatingConstructor()) kv("deleg", 1);
            key("ini"); out += "["; bool fr = true;
            for (auto *i : cd->inits()) { if (!fr) out += ","; fr = false; out += "{"; if (i->isAnyMemberInitializer()) { kv("n", i->getAnyMember()->getNameAsString()); kv("q", qn(i->getAnyMember())); } else if (i->isBaseInitializer()) { kv("base", ty(QualType(i->getBaseClass(), 0))); } else kv("deleg", 1); kv("l", line(i->getSourceLocation())); if (i->isWritten()) kv("wr", 1); sub("e", i->getInit()); out += "}"; }
            out += "]"; }
        else if (isa<CXXDestructorDecl>(f)) kv("kind", "dtor");
        params(f); sub("body", f->getBody()); out += "}";
    }
    bool firstCls = true; std::string cls;
    void record(const CXXRecordDecl *r) {
        if (!r->isThisDeclarationADefinition() || r->isLambda()) return;
        std::swap(out, cls);
        if (!firstCls) out += ",\n"; firstCls = false;
        out += "{"; kv("q", qn(r)); kv("u", usr(r)); kv("f", fileOf(r->getLocation())); kv("l", line(r->getLocation())); kv("t", r->isDependentContext() ? ty(QualType()) : ty(C.getRecordType(r)));
        if (r->isDependentContext()) kv("dep", 1);
        if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) targs(sp->getTemplateArgs().asArray());
        key("bases"); out += "["; bool f = true; for (auto &b : r->bases()) { if (!f) out += ","; f = false; auto *br = b.getType()->getAsCXXRecordDecl(); out += "{"; kv("t", ty(b.getType())); if (br) { kv("q", qn(br)); kv("u", usr(br)); } out += "}"; } out += "]";
        key("flds"); out += "["; f = true; for (auto *fd : r->fields()) { if (!f) out += ","; f = false; out += "{"; kv("n", fd->getNameAsString()); kv("q", qn(fd)); kv("t", ty(fd->getType())); kv("l", line(fd->getLocation())); kv("acc", fd->getAccess() == AS_public ? "public" : fd->getAccess() == AS_protected ? "protected" : "private"); if (fd->isMutable()) kv("mut", 1); if (fd->hasInClassInitializer()) { kv("hasinit", 1); if (fd->getInClassInitializer()) sub("init", fd->getInClassInitializer()); } out += "}"; } out += "]";
        key("m"); out += "["; f = true; for (auto *m : r->methods()) { if (!f) out += ","; f = false; out += "{"; kv("fn", qn(m)); kv("u", usr(m)); kv("acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private"); kv("t", ty(m->getReturnType())); if (m->isImplicit()) kv("impl", 1); if (m->isDeleted()) kv("del", 1); if (m->isDefaulted()) kv("dft", 1); if (m->isVirtual()) kv("virt", 1); if (m->isConst()) kv("const", 1); if (m->isStatic()) kv("stat", 1);
            if (auto *cd = dyn_cast<CXXConstructorDecl>(m)) { kv("kind", cd->isCopyConstructor() ? "copyctor" : cd->isMoveConstructor() ? "movector" : cd->isDefaultConstructor() ? "defctor" : "ctor"); } else if (m->isCopyAssignmentOperator()) kv("kind", "copyasg"); else if (m->isMoveAssignmentOperator()) kv("kind", "moveasg"); else if (isa<CXXDestructorDecl>(m)) kv("kind", "dtor");
            key("pt"); out += "["; bool g = true; for (auto *p : m->parameters()) { if (!g) out += ","; g = false; out += std::to_string(ty(p->getType())); } out += "]"; out += "}"; } out += "]";
        key("sp"); out += "{"; if (!r->isDependentContext()) { kv("cc", r->hasSimpleCopyConstructor() || r->hasUserDeclaredCopyConstructor() ? 1 : 0); kv("needimplcc", r->needsImplicitCopyConstructor() ? 1 : 0); kv("triv", r->isTriviallyCopyable() ? 1 : 0); } out += "}";
        out += "}";
        std::swap(out, cls);
    }
    bool firstVar = true; std::string vars;
    void globalVar(const VarDecl *v) {
        std::swap(out, vars);
        if (!firstVar) out += ",\n"; firstVar = false;
        out += "{"; kv("q", qn(v)); kv("n", v->getNameAsString()); kv("i", id(v)); kv("f", fileOf(v->getLocation())); kv("l", line(v->getLocation())); kv("t", ty(v->getType()));
        if (v->isConstexpr()) kv("cx", 1);
        if (v->getType().isConstQualified()) kv("const", 1);
        if (v->getTSCSpec() != TSCS_unspecified) kv("tls", 1);
        if (v->isStaticLocal()) { kv("static", 1); if (auto *pf = dyn_cast<FunctionDecl>(v->getDeclContext())) kv("infn", qn(pf)); }
        if (v->getInit()) sub("init", v->getInit());
        out += "}";
        std::swap(out, vars);
    }
    std::string enums; bool firstEnum = true;
    void enumDecl(const EnumDecl *e) {
        std::swap(out, enums);
        if (!firstEnum) out += ",\n"; firstEnum = false;
        out += "{"; kv("q", qn(e)); kv("f", fileOf(e->getLocation())); kv("l", line(e->getLocation())); key("v"); out += "["; bool f = true;
        for (auto *c : e->enumerators()) { if (!f) out += ","; f = false; out += "{"; kv("n", c->getNameAsString()); kv("q", qn(c)); kv("v", (int)c->getInitVal().getExtValue()); out += "}"; }
        out += "]}";
        std::swap(out, enums);
    }
};

struct V : RecursiveASTVisitor<V> {
    Dumper &D;
    explicit V(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *f) { if (D.inRoot(f->getLocation())) D.function(f); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) { if (D.inRoot(r->getLocation())) D.record(r); return true; }
    bool VisitEnumDecl(EnumDecl *e) { if (D.inRoot(e->getLocation()) && e->isThisDeclarationADefinition()) D.enumDecl(e); return true; }
    bool VisitVarDecl(VarDecl *v) { if (!isa<ParmVarDecl>(v) && v->hasGlobalStorage() && D.inRoot(v->getLocation())) D.globalVar(v); return true; }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        Dumper D(C); D.out.reserve(64 << 20);
        D.out = "{\"functions\":[";
        V v(D); v.TraverseDecl(C.getTranslationUnitDecl());
        D.out += "],\n\"classes\":[" + D.cls + "],\n\"vars\":[" + D.vars + "],\n\"enums\":[" + D.enums + "],\n\"types\":[";
        for (size_t i = 0; i < D.typev.size(); ++i) { if (i) D.out += ","; D.out += jesc(D.typev[i]); }
        D.out += "],\n\"errors\":" + std::to_string(C.getDiagnostics().hasErrorOccurred() ? 1 : 0);
        D.out += ",\n\"files\":["; bool f = true;
        for (auto it = D.SM.fileinfo_begin(); it != D.SM.fileinfo_end(); ++it) { if (!f) D.out += ","; f = false; D.out += jesc(it->first.getName()); }
        D.out += "]}\n";
        std::error_code ec; llvm::raw_fd_ostream os(gOut, ec); os << D.out;
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, char **argv) {
    // pifacts ROOT OUT FILE -- flags
    if (argc < 5) return 2;
    gRoot = argv[1]; gOut = argv[2]; std::string file = argv[3];
    std::vector<std::string> fl;
    for (int i = 5; i < argc; ++i) fl.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", fl);
    tooling::ClangTool t(db, {file});
    return t.run(tooling::newFrontendActionFactory<Action>().get());
}
