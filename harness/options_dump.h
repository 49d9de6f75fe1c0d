// Writes the effective options as the body of one JSON member.  VERIF_OPTIONS names rule
// configuration keys to look up, separated by commas.
#pragma once
#include "oclint/RuleConfiguration.h"
#include "oclint/Options.h"
#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <string>
static void str(std::ostream &o, const std::string &s) {
    o << '"';
    char b[8];
    for (unsigned char c : s) {
        if (c < 0x20 || c > 0x7e || c == '"' || c == '\\') { snprintf(b, 8, "\\u%04x", c); o << b; }
        else o << c;
    }
    o << '"';
}
static void options(std::ostream &o) {
    using namespace oclint;
    using namespace oclint::option;
    o << "\"options\":{\"maxP1\":" << maxP1() << ",\"maxP2\":" << maxP2() << ",\"maxP3\":" << maxP3();
    o << ",\"reportType\":"; str(o, reportType());
    o << ",\"hasOutput\":" << hasOutputPath();
    o << ",\"output\":"; str(o, outputPath());
    o << ",\"global\":" << enableGlobalAnalysis() << ",\"checker\":" << enableClangChecker()
      << ",\"dup\":" << allowDuplicatedViolations() << ",\"list\":" << showEnabledRules();
    o << ",\"rulesPath\":[";
    bool f = true;
    for (auto &p : rulesPath()) { if (!f) o << ","; f = false; str(o, p); }
    o << "],\"enabled\":["; f = true;
    for (auto &p : rulesetFilter().filteredRuleNames()) { if (!f) o << ","; f = false; str(o, p); }
    o << "],\"work\":"; str(o, workingPath());
    o << ",\"rc\":{"; f = true;
    std::string keys = getenv("VERIF_OPTIONS"), cur;
    keys += ",";
    for (char c : keys) {
        if (c != ',') { cur += c; continue; }
        if (!cur.empty()) {
            if (!f) o << ","; f = false;
            str(o, cur); o << ":";
            if (!RuleConfiguration::hasKey(cur)) o << "null";
            else { o << "["; str(o, RuleConfiguration::stringForKey(cur, "?"));
                   o << "," << RuleConfiguration::intForKey(cur, 0) << ","
                     << RuleConfiguration::doubleForKey(cur, 0) << "]"; }
        }
        cur.clear();
    }
    o << "}}";
}
