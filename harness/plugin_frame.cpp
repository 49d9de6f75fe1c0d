// Rule plugin: rules as a user would write them, on each of the framework's base classes, which log what they are given; and a
// reference that finds by itself (from the AST and the source manager) what they should be given.  Log: one event per line,
// appended to the file named by VERIF_FRAME.
#include <clang/AST/AST.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/ASTMatchers/ASTMatchers.h>
#include <clang/Basic/SourceManager.h>
#include "oclint/AbstractASTMatcherRule.h"
#include "oclint/AbstractASTVisitorRule.h"
#include "oclint/AbstractSourceCodeReaderRule.h"
#include "oclint/RuleSet.h"
#include <cstdio>
#include <cstdlib>
using namespace oclint;
using namespace clang;

namespace {
std::string text;
void flush() {
    const char *f = getenv("VERIF_FRAME");
    if (FILE *h = f ? fopen(f, "a") : nullptr) { fwrite(text.data(), 1, text.size(), h); fclose(h); }
    text.clear();
}
void ev(const char *tag, const char *what, const void *p = nullptr, const char *kind = "") {
    char b[40];
    snprintf(b, 40, p ? " %lx " : " ", (unsigned long)p);
    text += tag; text += ' '; text += what; text += b; text += kind; text += '\n';
    if (text.size() > 1 << 16) flush();
}
void evs(const char *tag, const char *what, llvm::StringRef s) { text += tag; text += ' '; text += what; text += ' '; text += s; text += '\n'; }

// every node, by a traversal of its own
class Ref : public RecursiveASTVisitor<Ref> {
public:
    bool VisitDecl(Decl *d) { ev("ref", "D", d, d->getDeclKindName()); return true; }
    bool VisitStmt(Stmt *s) { ev("ref", "S", s, s->getStmtClassName()); return true; }
};
// the nodes of the kinds that the matchers and the reporting rules are about
class RefKinds : public RecursiveASTVisitor<RefKinds> {
public:
    SourceManager *SM;
    void place(const char *rule, SourceRange r) {
        // the place in a file of a range, as a user reads it
        SourceLocation b = SM->getFileLoc(r.getBegin()), e = SM->getFileLoc(r.getEnd());
        PresumedLoc pb = SM->getPresumedLoc(b), pe = SM->getPresumedLoc(e);
        auto f = SM->getFileEntryRefForID(SM->getFileID(b));
        if (pb.isInvalid() || pe.isInvalid() || !f) return;
        text += "refat "; text += rule;
        for (unsigned n : {pb.getLine(), pb.getColumn(), pe.getLine(), pe.getColumn()}) text += ' ' + std::to_string(n);
        text += ' '; text += f->getName(); text += '\n';
    }
    bool VisitDecl(Decl *d) {
        ev("refm", "d", d);
        if (auto *f = dyn_cast<FunctionDecl>(d)) {
            if (f->isThisDeclarationADefinition()) ev("refm", "f", d);
            place("decl", d->getSourceRange());
        }
        if (auto *v = dyn_cast<VarDecl>(d)) {
            if (v->hasLocalStorage()) ev("refm", "l", d);
            place("location", SourceRange(v->getLocation(), v->getLocation()));
        }
        return true;
    }
    bool VisitStmt(Stmt *s) {
        ev("refm", "s", s);
        if (isa<IfStmt>(s)) ev("refm", "i", s);
        if (isa<CallExpr>(s)) { ev("refm", "c", s); place("stmt", s->getSourceRange()); }
        if (auto *b = dyn_cast<BinaryOperator>(s)) if (b->getOpcode() == BO_Assign) ev("refm", "a", s);
        return true;
    }
};
class Reference : public RuleBase {
public:
    const std::string name() const override { return "frame reference"; }
    const std::string category() const override { return "frame"; }
    int priority() const override { return 3; }
    void apply() override {
        ASTContext *C = _carrier->getASTContext();
        SourceManager &SM = C->getSourceManager();
        auto e = SM.getFileEntryRefForID(SM.getMainFileID());
        evs("ref", "B", e ? e->getName() : "?");
        evs("refm", "B", e ? e->getName() : "?");
        evs("lang", C->getLangOpts().ObjC ? "objc" : C->getLangOpts().CPlusPlus ? "cxx" : "c", e ? e->getName() : "?");
        Ref r;
        RefKinds k;
        k.SM = &SM;
        for (Decl *d : C->getTranslationUnitDecl()->decls()) {
            SourceLocation b = d->getBeginLoc();
            if (b.isInvalid() || SM.getDecomposedExpansionLoc(b).first != SM.getMainFileID()) continue;
            ev("top", "D", d, d->getDeclKindName());
            r.TraverseDecl(d);
            k.TraverseDecl(d);
        }
        ev("ref", "E");
        ev("refm", "E");
        evs("top", "E", "");
        flush();
    }
};

#define COMMON(NAME, TAG) \
    const std::string name() const override { return NAME; } \
    const std::string category() const override { return "frame"; } \
    int priority() const override { return 3; } \
    const char *tag() const { return TAG; } \
    void begin() { SourceManager &SM = _carrier->getSourceManager(); auto e = SM.getFileEntryRefForID(SM.getMainFileID()); evs(TAG, "B", e ? e->getName() : "?"); } \
    void end() { evs(TAG, "E", ""); flush(); }

class Visitor : public AbstractASTVisitorRule<Visitor> {
public:
    COMMON("frame visitor", "vis")
    void setUp() override { begin(); }
    void tearDown() override { end(); }
    bool VisitDecl(Decl *d) { ev("vis", "D", d, d->getDeclKindName()); return true; }
    bool VisitStmt(Stmt *s) { ev("vis", "S", s, s->getStmtClassName()); return true; }
};
// stops in each top-level declaration at its first node: must still be given the next declaration
class Stopper : public AbstractASTVisitorRule<Stopper> {
public:
    COMMON("frame stopper", "stop")
    void setUp() override { begin(); }
    void tearDown() override { end(); }
    bool VisitDecl(Decl *d) { ev("stop", "D", d, d->getDeclKindName()); return false; }
};
class ObjCOnly : public AbstractASTVisitorRule<ObjCOnly> {
public:
    COMMON("frame objc", "objc")
    unsigned int supportedLanguages() const override { return LANG_OBJC; }
    void setUp() override { begin(); }
    void tearDown() override { end(); }
    bool VisitDecl(Decl *d) { ev("objc", "D", d, d->getDeclKindName()); return true; }
    bool VisitStmt(Stmt *s) { ev("objc", "S", s, s->getStmtClassName()); return true; }
};
// reports what it visits through each way of reporting
class Reporter : public AbstractASTVisitorRule<Reporter> {
public:
    COMMON("frame reports", "rep")
    void setUp() override { begin(); }
    void tearDown() override { end(); }
    bool VisitFunctionDecl(FunctionDecl *f) { addViolation(f, this, "decl"); return true; }
    bool VisitCallExpr(CallExpr *c) { addViolation(c, this, "stmt"); return true; }
    bool VisitVarDecl(VarDecl *v) { addViolation(v->getLocation(), v->getLocation(), this, "location"); return true; }
};
class Matcher : public AbstractASTMatcherRule {
public:
    COMMON("frame matcher", "mat")
    void setUpMatcher() override {
        using namespace ast_matchers;
        begin();
        addMatcher(decl().bind("d"));
        addMatcher(functionDecl(isDefinition()).bind("f"));
        addMatcher(stmt().bind("s"));
        addMatcher(ifStmt().bind("i"));
        addMatcher(callExpr().bind("c"));
        addMatcher(binaryOperator(hasOperatorName("=")).bind("a"));
        addMatcher(varDecl(hasLocalStorage()).bind("l"));
    }
    void tearDown() override { AbstractASTMatcherRule::tearDown(); end(); }
    void callback(const ast_matchers::MatchFinder::MatchResult &r) override {
        for (const char *b : {"d", "f", "l"}) if (auto *d = r.Nodes.getNodeAs<Decl>(b)) ev("mat", b, d);
        for (const char *b : {"s", "i", "c", "a"}) if (auto *s = r.Nodes.getNodeAs<Stmt>(b)) ev("mat", b, s);
    }
};
// a second matcher rule: what one has asked for is not given to the other
class Matcher2 : public AbstractASTMatcherRule {
public:
    COMMON("frame matcher two", "mat2")
    void setUpMatcher() override { begin(); addMatcher(ast_matchers::ifStmt().bind("i")); }
    void tearDown() override { AbstractASTMatcherRule::tearDown(); end(); }
    void callback(const ast_matchers::MatchFinder::MatchResult &r) override {
        auto *s = r.Nodes.getNodeAs<Stmt>("i");
        ev("mat2", "i", s);
    }
};
class Reader : public AbstractSourceCodeReaderRule {
public:
    COMMON("frame reader", "read")
    void apply() override { begin(); AbstractSourceCodeReaderRule::apply(); end(); }
    void eachLine(int n, std::string l) override {
        text += "read L " + std::to_string(n) + ' ';
        char b[4];
        for (unsigned char c : l) { snprintf(b, 4, "%02x", c); text += b; }
        text += '\n';
        addViolation(n, 1, n, (int)l.size(), this, "line");
        if (text.size() > 1 << 16) flush();
    }
};
struct Init {
    Init() {
        new RuleSet(new Reference()); new RuleSet(new Visitor()); new RuleSet(new Stopper()); new RuleSet(new ObjCOnly()); new RuleSet(new Reporter());
        new RuleSet(new Matcher()); new RuleSet(new Matcher2()); new RuleSet(new Reader());
    }
} init;
}
