// Rule plugin: rules scripted by the file named in VERIF_SCRIPT, one record per line
// (strings hex encoded, "-" for the empty string):
//   R name category priority            declares a rule
//   V tu rule path sl sc el ec msg      rule reports this violation in the tu-th translation unit
//   E|W|B path sl sc el ec msg          adds a compiler error / warning / checker bug (with rule 0, tu 0)
#include "oclint/RuleBase.h"
#include "oclint/RuleCarrier.h"
#include "oclint/RuleSet.h"
#include "oclint/ResultCollector.h"
#include "oclint/Violation.h"
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <vector>
using namespace oclint;
static std::string unhex(const std::string &h) {
    std::string s;
    if (h == "-") return s;
    for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
    return s;
}
struct V { int tu; std::string path; int a, b, c, d; std::string msg; };
struct D { char kind; V v; };
static std::vector<D> diags;
class ScriptRule : public RuleBase {
public:
    std::string n, c; int p, index; std::vector<V> vs; int tu = 0;
    const std::string name() const override { return n; }
    const std::string category() const override { return c; }
    int priority() const override { return p; }
    void apply() override {
        if (index == 0 && tu == 0) {
            for (auto &d : diags) {
                Violation v(nullptr, d.v.path, d.v.a, d.v.b, d.v.c, d.v.d, d.v.msg);
                auto *r = ResultCollector::getInstance();
                if (d.kind == 'E') r->addError(v); else if (d.kind == 'W') r->addWarning(v); else r->addCheckerBug(v);
            }
        }
        for (auto &v : vs) if (v.tu == tu) _carrier->addViolation(v.path, v.a, v.b, v.c, v.d, this, v.msg);
        tu++;
    }
};
struct Init {
    Init() {
        const char *f = getenv("VERIF_SCRIPT");
        if (!f) return;
        std::ifstream in(f);
        std::vector<ScriptRule *> rules;
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream s(line);
            std::string k, x, y, m; s >> k;
            if (k == "R") { auto *r = new ScriptRule; s >> x >> y >> r->p; r->n = unhex(x); r->c = unhex(y);
                r->index = rules.size(); rules.push_back(r); }
            else if (k == "V") { V v; int ri; s >> v.tu >> ri >> x >> v.a >> v.b >> v.c >> v.d >> m;
                v.path = unhex(x); v.msg = unhex(m); rules.at(ri)->vs.push_back(v); }
            else { D d; d.kind = k[0]; d.v.tu = 0; s >> x >> d.v.a >> d.v.b >> d.v.c >> d.v.d >> m;
                d.v.path = unhex(x); d.v.msg = unhex(m); diags.push_back(d); }
        }
        for (auto *r : rules) new RuleSet(r);
    }
};
static Init init;
