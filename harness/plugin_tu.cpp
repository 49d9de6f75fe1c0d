// Rule plugin: reports once per analysed translation unit; the message lists the functions, variables and
// types declared at top level anywhere in it, in order, and the language.
#include "oclint/RuleBase.h"
#include "oclint/RuleCarrier.h"
#include "oclint/RuleSet.h"
#include <clang/AST/ASTContext.h>
#include <clang/AST/Decl.h>
#include <clang/Basic/SourceManager.h>
using namespace oclint;
using namespace clang;
class TU : public RuleBase {
public:
    const std::string name() const override { return "verif tu"; }
    const std::string category() const override { return "verif"; }
    int priority() const override { return 3; }
    void apply() override {
        ASTContext *c = _carrier->getASTContext();
        SourceManager &sm = c->getSourceManager();
        std::string s = c->getLangOpts().CPlusPlus ? (c->getLangOpts().ObjC ? "objc++" : "c++") : c->getLangOpts().ObjC ? "objc" : "c";
        for (Decl *d : c->getTranslationUnitDecl()->decls()) {
            if (d->isImplicit() || d->getLocation().isInvalid()) continue;
            if (sm.isInSystemHeader(d->getLocation())) continue;
            if (auto *n = dyn_cast<NamedDecl>(d)) if (n->getIdentifier()) s += " " + n->getNameAsString();
        }
        auto f = sm.getFileEntryRefForID(sm.getMainFileID());
        std::string p = _carrier->getMainFilePath();
        _carrier->addViolation(p.empty() ? "?" : p, 1, 1, 1, 1, this, s);
    }
};
static RuleSet rule(new TU);
