// Rule plugin: visitor and matcher rules for every combination of supported languages and CUDA
// function attributes; each reports every named function defined in the source.
#include <clang/AST/AST.h>
#include <clang/ASTMatchers/ASTMatchers.h>
#include "oclint/AbstractASTMatcherRule.h"
#include "oclint/AbstractASTVisitorRule.h"
#include "oclint/RuleSet.h"
using namespace oclint;
using namespace clang;
static std::string mask(const char *kind, unsigned l, unsigned c) {
    return std::string("gate ") + kind + " l" + std::to_string(l) + " c" + std::to_string(c);
}
class GV : public AbstractASTVisitorRule<GV> {
public:
    unsigned L, C;
    GV(unsigned l, unsigned c) : L(l), C(c) {}
    const std::string name() const override { return mask("visitor", L, C); }
    int priority() const override { return 3; }
    const std::string category() const override { return "gate"; }
    unsigned int supportedLanguages() const override { return L; }
    unsigned int supportedCUDAFunctionAttrs() const override { return C; }
    bool VisitFunctionDecl(FunctionDecl *f) {
        if (f->doesThisDeclarationHaveABody()) this->addViolation(f, this, f->getNameAsString());
        return true;
    }
};
class GM : public AbstractASTMatcherRule {
public:
    unsigned L, C;
    GM(unsigned l, unsigned c) : L(l), C(c) {}
    const std::string name() const override { return mask("matcher", L, C); }
    int priority() const override { return 3; }
    const std::string category() const override { return "gate"; }
    unsigned int supportedLanguages() const override { return L; }
    unsigned int supportedCUDAFunctionAttrs() const override { return C; }
    void callback(const ast_matchers::MatchFinder::MatchResult &r) override {
        if (auto *f = r.Nodes.getNodeAs<FunctionDecl>("f")) addViolation(f, this, f->getNameAsString());
    }
    void setUpMatcher() override {
        using namespace ast_matchers;
        addMatcher(functionDecl(isDefinition()).bind("f"));
    }
};
static struct Init {
    Init() {
        for (unsigned l = 0; l < 8; l++)
            for (unsigned c = 0; c < 4; c++)
                if (l == 7 || c == 1) { new RuleSet(new GV(l, c)); new RuleSet(new GM(l, c)); }
    }
} init;
