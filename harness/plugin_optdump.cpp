// Rule plugin: a rule that never violates; when loaded it writes the effective options to the file
// named by VERIF_OPTDUMP.
#include "oclint/RuleBase.h"
#include "oclint/RuleSet.h"
#include "options_dump.h"
#include <fstream>
using namespace oclint;
class OptDump : public RuleBase {
public:
    const std::string name() const override { return "verif optdump"; }
    const std::string category() const override { return "verif"; }
    int priority() const override { return 3; }
    void apply() override {
        const char *f = getenv("VERIF_OPTDUMP");
        if (!f) return;
        std::ofstream o(f);
        o << "{";
        options(o);
        o << "}\n";
    }
};
static RuleSet rule(new OptDump);
