// Rule plugin "verif ast dump": writes, for every translation unit the rules are run on, the
// AST that clang built (as a preorder list of nodes in RecursiveASTVisitor's default order)
// with the facts the reference models need.  It reports nothing.  Output: one JSON document
// per line, appended to the file named by VERIF_AST.
#include <clang/AST/AST.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Attr.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Basic/SourceManager.h>
#include "oclint/RuleBase.h"
#include "oclint/RuleCarrier.h"
#include "oclint/RuleSet.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>
using namespace clang;

namespace {
struct Out {
    std::string s;
    void str(llvm::StringRef v) {
        s += '"';
        char b[8];
        for (unsigned char c : v) {
            if (c < 0x20 || c > 0x7e || c == '"' || c == '\\') { snprintf(b, 8, "\\u%04x", c); s += b; }
            else s += (char)c;
        }
        s += '"';
    }
    void num(long long n) { s += std::to_string(n); }
};

class Dump : public RecursiveASTVisitor<Dump> {
    typedef RecursiveASTVisitor<Dump> Base;
    ASTContext *C; SourceManager *SM; Out *o;
    std::unordered_map<const void *, int> ids;
    std::vector<const Decl *> pending;
    std::vector<int> stack;
    int nodes = 0;
    bool first = true;
public:
    int id(const void *p) {
        if (!p) return 0;
        auto it = ids.find(p);
        if (it != ids.end()) return it->second;
        int n = ids.size() + 1;
        ids[p] = n;
        return n;
    }
    int ref(const Decl *d) { if (d) pending.push_back(d); return id(d); }
    void k(const char *name) { o->s += ",\""; o->s += name; o->s += "\":"; }
    void kv(const char *name, long long v) { k(name); o->num(v); }
    void ks(const char *name, llvm::StringRef v) { k(name); o->str(v); }
    void flag(const char *name, bool v) { if (v) { k(name); o->s += '1'; } }
    void loc(SourceLocation b, SourceLocation e) {
        if (b.isInvalid() || e.isInvalid()) { if (b.isInvalid()) flag("nob", true); flag("noloc", true); }
        SourceLocation fb = SM->getFileLoc(b), fe = SM->getFileLoc(e);
        char t[96];
        snprintf(t, 96, ",\"r\":[%u,%u,%u,%u]", SM->getPresumedLineNumber(fb), SM->getPresumedColumnNumber(fb),
                 SM->getPresumedLineNumber(fe), SM->getPresumedColumnNumber(fe));
        o->s += t;
        if (b.isMacroID() || e.isMacroID()) {
            snprintf(t, 96, ",\"x\":[%u,%u,%d,%d]", SM->getPresumedLineNumber(b), SM->getPresumedLineNumber(e),
                     (int)b.isMacroID(), (int)e.isMacroID());
            o->s += t;
        }
        if (fb.isValid() && SM->getFileID(fb) != SM->getMainFileID()) ks("f", SM->getFilename(fb));
    }
    void begin(const char *what, const void *p, const char *kind) {
        if (!first) o->s += ",\n";
        first = false;
        o->s += "{\"i\":"; o->num(id(p));
        kv("p", stack.empty() ? 0 : stack.back());
        ks("k", kind);
        (void)what;
    }
    std::string ty(QualType t) { return t.isNull() ? std::string() : t.getAsString(); }
    void declFacts(const Decl *d) {
        loc(d->getBeginLoc(), d->getEndLoc());
        if (auto *nd = dyn_cast<NamedDecl>(d)) ks("n", nd->getNameAsString());
        flag("implicit", d->isImplicit());
        flag("used", d->isUsed()); flag("refd", d->isReferenced());
        if (d->getAccess() != AS_none) kv("acc", d->getAccess());
        if (d->hasAttr<UnusedAttr>()) flag("a_unused", true);
        if (d->hasAttr<IBActionAttr>()) flag("a_ibaction", true);
        if (d->hasAttr<CUDAGlobalAttr>()) flag("a_global", true);
        bool any = false;
        for (auto *a : d->specific_attrs<AnnotateAttr>()) {
            if (!any) { k("ann"); o->s += "["; } else o->s += ",";
            any = true; o->str(a->getAnnotation());
        }
        if (any) o->s += "]";
        if (auto *dc = d->getDeclContext()) { kv("dc", ref(Decl::castFromDeclContext(dc))); ks("dck", dc->getDeclKindName()); }
        if (auto *dc = d->getLexicalDeclContext()) { kv("ldc", ref(Decl::castFromDeclContext(dc))); ks("ldck", dc->getDeclKindName()); }
        if (auto *vd = dyn_cast<ValueDecl>(d)) { ks("t", ty(vd->getType())); ks("ct", ty(vd->getType().getCanonicalType())); }
        if (auto *vd = dyn_cast<VarDecl>(d)) {
            flag("local", vd->isLocalVarDecl()); flag("sdm", vd->isStaticDataMember()); flag("var", true);
            kv("init", id(vd->getInit()));
            if (auto *pv = dyn_cast<ParmVarDecl>(vd)) flag("defarg", pv->hasDefaultArg());
        }
        if (auto *fd = dyn_cast<FunctionDecl>(d)) {
            flag("fn", true);
            flag("hasbody", fd->hasBody()); flag("thisbody", fd->doesThisDeclarationHaveABody());
            kv("body", id(d->hasBody() ? d->getBody() : nullptr));
            kv("tk", fd->getTemplatedKind());
            k("params"); o->s += "[";
            for (unsigned i = 0; i < fd->getNumParams(); i++) { if (i) o->s += ","; o->num(id(fd->getParamDecl(i))); }
            o->s += "]";
            k("pdef"); o->s += "[";
            for (unsigned i = 0; i < fd->getNumParams(); i++) { if (i) o->s += ","; o->num(fd->getParamDecl(i)->hasDefaultArg()); }
            o->s += "]";
            if (d->hasBody()) bodyLines(d->getBody());
        }
        if (auto *md = dyn_cast<CXXMethodDecl>(d)) {
            flag("method", true);
            flag("virtual", md->isVirtual()); flag("static", md->isStatic());
            flag("inrec", isa<CXXRecordDecl>(md->getLexicalDeclContext()));
        }
        if (auto *rd = dyn_cast<RecordDecl>(d)) {
            flag("rec", true);
            kv("nfields", std::distance(rd->field_begin(), rd->field_end()));
            flag("isdef", rd->isThisDeclarationADefinition());
        }
        if (auto *rd = dyn_cast<CXXRecordDecl>(d)) {
            flag("cxxrec", true);
            kv("nmethods", std::distance(rd->method_begin(), rd->method_end()));
            flag("lambda", rd->isLambda());
            if (rd->hasDefinition()) {
                flag("hasdef", true); flag("poly", rd->isPolymorphic());
                flag("dep", rd->isDependentContext());
                k("bases"); o->s += "[";
                bool f = true;
                for (auto &b : rd->bases()) {
                    if (!f) o->s += ","; f = false;
                    o->s += "["; o->num(b.getAccessSpecifier()); o->s += ",";
                    auto *br = b.getType()->getAsCXXRecordDecl();
                    o->num(ref(br)); o->s += "]";
                }
                o->s += "]";
                if (auto *dt = rd->getDestructor()) {
                    k("dtor"); o->s += "["; o->num(dt->isVirtual()); o->s += ","; o->num(dt->getAccess());
                    o->s += ","; o->num(dt->isImplicit()); o->s += "]";
                }
            }
        }
        if (auto *m = dyn_cast<ObjCMethodDecl>(d)) {
            flag("objcm", true);
            ks("sel", m->getSelector().getAsString()); flag("inst", m->isInstanceMethod());
            flag("hasbody", m->hasBody());
            kv("iface", ref(m->getClassInterface()));
            kv("body", id(m->hasBody() ? m->getBody() : nullptr));
            if (m->hasBody()) bodyLines(m->getBody());
            k("params"); o->s += "["; bool f = true;
            for (auto *p : m->parameters()) { if (!f) o->s += ","; f = false; o->num(id(p)); }
            o->s += "]";
            flag("accessor", m->isPropertyAccessor());
            if (m->isPropertyAccessor()) kv("prop", ref(m->findPropertyDecl()));
            SmallVector<const ObjCMethodDecl *, 4> ov;
            flag("overriding", m->isOverriding());
            if (m->isOverriding()) m->getOverriddenMethods(ov);
            k("ov"); o->s += "["; f = true;
            for (auto *x : ov) { if (!f) o->s += ","; f = false; o->num(ref(x)); }
            o->s += "]";
        }
        if (auto *i = dyn_cast<ObjCInterfaceDecl>(d)) {
            flag("hasdef", i->hasDefinition());
            if (i->hasDefinition()) {
                kv("super", ref(i->getSuperClass()));
                kv("nivars", i->ivar_size());
                list("protos", i->protocols());
                kv("canon", ref(i->getDefinition()));
                std::vector<const Decl *> cats;
                for (auto *c : i->visible_categories()) cats.push_back(c);
                list("cats", cats);
            }
        }
        if (auto *i = dyn_cast<ObjCImplementationDecl>(d)) kv("iface", ref(i->getClassInterface()));
        if (auto *i = dyn_cast<ObjCCategoryImplDecl>(d)) kv("iface", ref(i->getClassInterface()));
        if (auto *i = dyn_cast<ObjCCategoryDecl>(d)) { kv("iface", ref(i->getClassInterface())); flag("ext", i->IsClassExtension()); }
        if (auto *i = dyn_cast<ObjCProtocolDecl>(d)) { if (i->hasDefinition()) { kv("canon", ref(i->getDefinition())); list("protos", i->protocols()); } }
        if (auto *i = dyn_cast<ObjCContainerDecl>(d)) list("meths", i->methods());
        if (auto *i = dyn_cast<ObjCIvarDecl>(d)) kv("iface", ref(i->getContainingInterface()));
        if (auto *p = dyn_cast<ObjCPropertyDecl>(d)) { kv("getter", ref(p->getGetterMethodDecl())); kv("setter", ref(p->getSetterMethodDecl())); }
    }
    template <class R> void list(const char *name, const R &r) {
        k(name); o->s += "["; bool f = true;
        for (auto *x : r) { if (!f) o->s += ","; f = false; o->num(ref(x)); }
        o->s += "]";
    }
    void bodyLines(const Stmt *b) {
        char t[64];
        snprintf(t, 64, ",\"bl\":[%u,%u]", SM->getPresumedLineNumber(b->getBeginLoc()), SM->getPresumedLineNumber(b->getEndLoc()));
        o->s += t;
        ks("bk", b->getStmtClassName());
    }
    void kid(const char *name, const Stmt *s) { kv(name, id(s)); }
    void constant(const Expr *e) {
        if (!e) return;
        flag("vdep", e->isValueDependent());
        if (e->isValueDependent() || e->containsErrors()) return;
        bool r;
        if (e->EvaluateAsBooleanCondition(r, *C)) kv("const", r);
    }
    void stmtFacts(const Stmt *s) {
        loc(s->getBeginLoc(), s->getEndLoc());
        if (auto *e = dyn_cast<Expr>(s)) {
            flag("expr", true);
            ks("t", ty(e->getType()));
        }
        if (auto *x = dyn_cast<CompoundStmt>(s)) {
            k("body"); o->s += "["; bool f = true;
            for (auto *c : x->body()) { if (!f) o->s += ","; f = false; o->num(id(c)); }
            o->s += "]";
        }
        if (auto *x = dyn_cast<IfStmt>(s)) {
            kid("cond", x->getCond()); kid("then", x->getThen()); kid("else", x->getElse());
            flag("consteval", x->isConsteval());
            constant(x->getCond());
        }
        if (auto *x = dyn_cast<WhileStmt>(s)) { kid("cond", x->getCond()); kid("body", x->getBody()); }
        if (auto *x = dyn_cast<DoStmt>(s)) { kid("cond", x->getCond()); kid("body", x->getBody()); }
        if (auto *x = dyn_cast<ForStmt>(s)) { kid("init", x->getInit()); kid("cond", x->getCond()); kid("inc", x->getInc()); kid("body", x->getBody()); }
        if (auto *x = dyn_cast<CXXForRangeStmt>(s)) { kid("body", x->getBody()); kv("lv", id(x->getLoopVariable())); kid("rinit", x->getInit()); }
        if (auto *x = dyn_cast<ObjCForCollectionStmt>(s)) { kid("elem", x->getElement()); kid("body", x->getBody()); }
        if (auto *x = dyn_cast<SwitchStmt>(s)) {
            kid("cond", x->getCond()); kid("body", x->getBody()); flag("allenum", x->isAllEnumCasesCovered());
            k("cases"); o->s += "["; bool f = true;
            for (auto *c = x->getSwitchCaseList(); c; c = c->getNextSwitchCase()) { if (!f) o->s += ","; f = false; o->num(id(c)); }
            o->s += "]";
        }
        if (auto *x = dyn_cast<SwitchCase>(s)) kid("sub", x->getSubStmt());
        if (auto *x = dyn_cast<LabelStmt>(s)) kid("sub", x->getSubStmt());
        if (auto *x = dyn_cast<AttributedStmt>(s)) kid("sub", x->getSubStmt());
        if (auto *x = dyn_cast<DeclStmt>(s)) {
            k("decls"); o->s += "["; bool f = true;
            for (auto *d : x->decls()) { if (!f) o->s += ","; f = false; o->num(id(d)); }
            o->s += "]";
        }
        if (auto *x = dyn_cast<ReturnStmt>(s)) kid("val", x->getRetValue());
        if (auto *x = dyn_cast<CXXTryStmt>(s)) {
            kid("try", x->getTryBlock()); k("catches"); o->s += "[";
            for (unsigned i = 0; i < x->getNumHandlers(); i++) { if (i) o->s += ","; o->num(id(x->getHandler(i))); }
            o->s += "]";
        }
        if (auto *x = dyn_cast<CXXCatchStmt>(s)) { kid("body", x->getHandlerBlock()); kv("ex", id(x->getExceptionDecl())); }
        if (auto *x = dyn_cast<ObjCAtTryStmt>(s)) {
            kid("try", x->getTryBody()); k("catches"); o->s += "[";
            for (unsigned i = 0; i < x->getNumCatchStmts(); i++) { if (i) o->s += ","; o->num(id(x->getCatchStmt(i))); }
            o->s += "]"; kid("finally", x->getFinallyStmt());
        }
        if (auto *x = dyn_cast<ObjCAtCatchStmt>(s)) { kid("body", x->getCatchBody()); kv("ex", id(x->getCatchParamDecl())); }
        if (auto *x = dyn_cast<ObjCAtFinallyStmt>(s)) kid("body", x->getFinallyBody());
        if (auto *x = dyn_cast<ObjCAtSynchronizedStmt>(s)) kid("body", x->getSynchBody());
        if (auto *x = dyn_cast<ObjCAutoreleasePoolStmt>(s)) kid("body", x->getSubStmt());
        if (auto *x = dyn_cast<CastExpr>(s)) { kid("sub", x->getSubExpr()); ks("ck", x->getCastKindName()); flag("cast", true); }
        if (auto *x = dyn_cast<ParenExpr>(s)) kid("sub", x->getSubExpr());
        if (auto *x = dyn_cast<UnaryOperator>(s)) { kid("sub", x->getSubExpr()); ks("op", UnaryOperator::getOpcodeStr(x->getOpcode())); flag("unary", true); flag("post", x->isPostfix()); }
        if (auto *x = dyn_cast<BinaryOperator>(s)) { kid("l", x->getLHS()); kid("rr", x->getRHS()); ks("op", x->getOpcodeStr()); flag("binary", true); }
        if (auto *x = dyn_cast<ConditionalOperator>(s)) { kid("cond", x->getCond()); kid("tv", x->getTrueExpr()); kid("fv", x->getFalseExpr()); constant(x->getCond()); }
        if (auto *x = dyn_cast<DeclRefExpr>(s)) { kv("d", ref(x->getDecl())); kv("fd", ref(x->getFoundDecl())); ks("n", x->getFoundDecl()->getNameAsString()); ks("dk", x->getDecl()->getDeclKindName()); }
        if (auto *x = dyn_cast<MemberExpr>(s)) { kid("base", x->getBase()); flag("arrow", x->isArrow()); ks("n", x->getMemberDecl()->getNameAsString()); }
        if (auto *x = dyn_cast<IntegerLiteral>(s)) ks("v", llvm::toString(x->getValue(), 10, false));
        if (auto *x = dyn_cast<CharacterLiteral>(s)) kv("v", x->getValue());
        if (auto *x = dyn_cast<FloatingLiteral>(s)) { char t[64]; snprintf(t, 64, "%a", x->getValueAsApproximateDouble()); ks("v", t); }
        if (auto *x = dyn_cast<CXXBoolLiteralExpr>(s)) kv("v", x->getValue());
        if (auto *x = dyn_cast<ObjCBoolLiteralExpr>(s)) kv("v", x->getValue());
        if (auto *x = dyn_cast<StringLiteral>(s)) ks("v", std::to_string(x->getCharByteWidth()) + ":" + x->getBytes().str());
        if (auto *x = dyn_cast<CXXDeleteExpr>(s)) { kid("arg", x->getArgument()); }
        if (auto *x = dyn_cast<CallExpr>(s)) { kv("callee", ref(x->getDirectCallee())); if (x->getDirectCallee()) ks("n", x->getDirectCallee()->getNameAsString()); flag("call", true); }
        if (auto *x = dyn_cast<ObjCMessageExpr>(s)) {
            ks("sel", x->getSelector().getAsString()); kv("rk", x->getReceiverKind());
            kv("ri", ref(x->getReceiverInterface())); kv("md", ref(x->getMethodDecl()));
            kid("recv", x->getInstanceReceiver()); flag("impl", x->isImplicit());
            if (x->getReceiverKind() == ObjCMessageExpr::Class) ks("crt", ty(x->getClassReceiver()));
            k("args"); o->s += "[";
            for (unsigned i = 0; i < x->getNumArgs(); i++) { if (i) o->s += ","; o->num(id(x->getArg(i))); }
            o->s += "]";
        }
        if (auto *x = dyn_cast<ObjCIvarRefExpr>(s)) { kv("d", ref(x->getDecl())); ks("n", x->getDecl()->getNameAsString()); }
        if (auto *x = dyn_cast<ObjCPropertyRefExpr>(s)) {
            flag("setter", x->isMessagingSetter());
            auto *m = x->isExplicitProperty()
                ? (x->isMessagingSetter() ? x->getExplicitProperty()->getSetterMethodDecl() : x->getExplicitProperty()->getGetterMethodDecl())
                : (x->isMessagingSetter() ? x->getImplicitPropertySetter() : x->getImplicitPropertyGetter());
            kv("md", ref(m));
        }
        if (auto *x = dyn_cast<LambdaExpr>(s)) kid("body", x->getBody());
        if (auto *x = dyn_cast<ExprWithCleanups>(s)) kid("sub", x->getSubExpr());
        // profile of an expression: equal strings iff structurally the same expression
        if (auto *e = dyn_cast<Expr>(s)) if (profiled) {
            llvm::FoldingSetNodeID fid;
            e->Profile(fid, *C, true);
            kv("prof", (long long)(fid.ComputeHash() & 0x7fffffff));
        }
    }
    bool profiled = false;
    std::unordered_map<const void *, bool> emitted;
    bool TraverseStmt(Stmt *s) {
        if (!s) return Base::TraverseStmt(s);
        begin("s", s, s->getStmtClassName());
        stmtFacts(s);
        o->s += "}";
        stack.push_back(id(s));
        bool r = Base::TraverseStmt(s);
        stack.pop_back();
        return r;
    }
    bool TraverseDecl(Decl *d) {
        if (!d) return Base::TraverseDecl(d);
        if (!shouldVisitImplicitCode() && d->isImplicit()) {
            // the base class decides what it does with implicit declarations
            stack.push_back(id(d));
            bool r = Base::TraverseDecl(d);
            stack.pop_back();
            return r;
        }
        std::string kind = std::string(d->getDeclKindName()) + "Decl";
        begin("d", d, kind.c_str());
        flag("decl", true);
        declFacts(d);
        o->s += "}";
        emitted[d] = true;
        stack.push_back(id(d));
        bool r = Base::TraverseDecl(d);
        stack.pop_back();
        return r;
    }
    void run(ASTContext *c, Out *out, bool prof) {
        C = c; SM = &c->getSourceManager(); o = out; profiled = prof;
        auto &L = c->getLangOpts();
        o->s += "{\"lang\":{\"objc\":"; o->num(L.ObjC); kv("cxx", L.CPlusPlus); kv("c99", L.C99); kv("cuda", L.CUDA); o->s += "}";
        auto ms = SM->getLocForStartOfFile(SM->getMainFileID());
        ks("main", SM->getFilename(ms));
        o->s += ",\"nodes\":[";
        std::vector<Decl *> tops;
        for (auto *d : c->getTranslationUnitDecl()->decls()) tops.push_back(d);
        for (auto *d : tops) {
            auto b = d->getBeginLoc();
            if (b.isValid() && SM->isInMainFile(b)) TraverseDecl(d);
        }
        o->s += "],\"side\":[";
        first = true;
        stack.clear();
        while (!pending.empty()) {
            const Decl *d = pending.back(); pending.pop_back();
            if (emitted[d] || isa<TranslationUnitDecl>(d)) continue;
            emitted[d] = true;
            std::string kind = std::string(d->getDeclKindName()) + "Decl";
            begin("d", d, kind.c_str());
            flag("decl", true);
            declFacts(d);
            o->s += "}";
        }
        o->s += "]}\n";
    }
};

class AstDumpRule : public oclint::RuleBase {
public:
    const std::string name() const override { return "verif ast dump"; }
    const std::string category() const override { return "verif"; }
    int priority() const override { return 3; }
    void apply() override {
        const char *f = getenv("VERIF_AST");
        if (!f) return;
        Out o;
        Dump d;
        d.run(_carrier->getASTContext(), &o, true);
        FILE *h = fopen(f, "a");
        if (!h) return;
        fwrite(o.s.data(), 1, o.s.size(), h);
        fclose(h);
    }
};
}
static oclint::RuleSet rules(new AstDumpRule());
