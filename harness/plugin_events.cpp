// Reporter plugin "verif-events": writes everything the results object says as one JSON
// object.  Strings are written byte by byte (\u00XX), so any content survives.
// VERIF_QUERY (letters) makes the listed queries, in that order, before anything else:
//   v allViolations  e allErrors  w allWarnings  b allCheckerBugs  n numberOfViolations
//   1/2/3 numberOfViolationsWithPriority  E numberOfErrors  W numberOfWarnings
//   B numberOfCheckerBugs  x hasErrors  y hasWarnings  z hasCheckerBugs
//   f numberOfFiles  g numberOfFilesWithViolations
#include "oclint/Reporter.h"
#include "oclint/Results.h"
#include "oclint/RuleBase.h"
#include "oclint/Violation.h"
#include "options_dump.h"
#include <cstdlib>
#include <cstdio>
#include <ostream>
using namespace oclint;
static void viol(std::ostream &o, const Violation &v) {
    o << "[";
    if (v.rule) {
        str(o, v.rule->name()); o << ","; str(o, v.rule->category()); o << "," << v.rule->priority();
        o << ","; str(o, v.rule->identifier());
    } else o << "null,null,null,null";
    o << ","; str(o, v.path);
    o << "," << v.startLine << "," << v.startColumn << "," << v.endLine << "," << v.endColumn << ",";
    str(o, v.message); o << "]";
}
template <typename T> static void list(std::ostream &o, const T &vs) {
    o << "[";
    bool first = true;
    for (const auto &v : vs) { if (!first) o << ",\n"; first = false; viol(o, v); }
    o << "]";
}
class EventsReporter : public Reporter {
public:
    const std::string name() const override { return "verif-events"; }
    void query(Results *r, std::ostream &o, char q) {
        switch (q) {
        case 'v': list(o, r->allViolations()); break;
        case 'e': list(o, r->allErrors()); break;
        case 'w': list(o, r->allWarnings()); break;
        case 'b': list(o, r->allCheckerBugs()); break;
        case 'n': o << r->numberOfViolations(); break;
        case '1': case '2': case '3': o << r->numberOfViolationsWithPriority(q - '0'); break;
        case 'E': o << r->numberOfErrors(); break;
        case 'W': o << r->numberOfWarnings(); break;
        case 'B': o << r->numberOfCheckerBugs(); break;
        case 'x': o << (r->hasErrors() ? 1 : 0); break;
        case 'y': o << (r->hasWarnings() ? 1 : 0); break;
        case 'z': o << (r->hasCheckerBugs() ? 1 : 0); break;
        case 'f': o << r->numberOfFiles(); break;
        case 'g': o << r->numberOfFilesWithViolations(); break;
        default: o << "null";
        }
    }
    void report(Results *r, std::ostream &o) override {
        const char *q = getenv("VERIF_QUERY");
        std::string qs = q ? q : "vewb";
        o << "{\"verif\":1,\"q\":[";
        bool first = true;
        for (char c : qs) { if (!first) o << ",\n"; first = false; o << "[\"" << c << "\","; query(r, o, c); o << "]"; }
        o << "]";
        if (getenv("VERIF_OPTIONS")) {
            o << ",";
            options(o);
        }
        o << "}\n";
    }
};
extern "C" Reporter *create() { return new EventsReporter(); }
