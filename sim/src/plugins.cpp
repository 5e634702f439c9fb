// Scripted rule and reporter plugins: they use oclint's real plugin interface and follow the
// scenario, so the findings that enter the system are known exactly.
#include "sim.h"
#include <functional>
#include <stdexcept>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>

#include <clang/AST/ASTContext.h>
#include <clang/AST/Decl.h>
#include <clang/Basic/SourceManager.h>

#include "oclint/Reporter.h"
#include "oclint/Results.h"
#include "oclint/RuleBase.h"
#include "oclint/RuleCarrier.h"
#include "oclint/RuleConfiguration.h"
#include "oclint/RuleSet.h"
#include "oclint/Violation.h"

namespace sim {
class ScriptRule : public oclint::RuleBase {
public:
    const RuleScript *s;
    int calls = 0;
    explicit ScriptRule(const RuleScript *x) : s(x) {}
    const std::string name() const override { return s->name; }
    const std::string category() const override { return s->category; }
    int priority() const override { return s->priority; }
    void apply() override {
        ++calls;
        std::string main = _carrier->getMainFilePath();
        for (const Action &a : s->actions) {
            if (a.match != "*" && a.match != main) continue;
            std::string path = a.path.empty() ? main : a.path;
            if (a.type == "v") {
                _carrier->addViolation(path, a.sl, a.sc, a.el, a.ec, this, a.msg);
            } else if (a.type == "call") { // only on the n-th call of this rule
                if (calls == a.sc) _carrier->addViolation(path, a.sl, a.sc, a.el, a.ec, this, a.msg);
            } else if (a.type == "many") { // sc violations on consecutive lines
                for (long i = 0; i < a.sc; i++)
                    _carrier->addViolation(path, a.sl + i, 1 + i % 7, a.sl + i, a.ec, this, a.msg + std::to_string(i));
            } else if (a.type == "cfgs") {
                _carrier->addViolation(path, a.sl, a.sc, a.el, a.ec, this,
                    "S=" + oclint::RuleConfiguration::stringForKey(a.msg, "<unset>"));
            } else if (a.type == "cfgi") {
                _carrier->addViolation(path, a.sl, a.sc, a.el, a.ec, this,
                    "I=" + std::to_string(oclint::RuleConfiguration::intForKey(a.msg, -77)));
            } else if (a.type == "cfgd") {
                _carrier->addViolation(path, a.sl, a.sc, a.el, a.ec, this,
                    "D=" + std::to_string(oclint::RuleConfiguration::doubleForKey(a.msg, -7.5)));
            } else if (a.type == "cfgh") {
                _carrier->addViolation(path, a.sl, a.sc, a.el, a.ec, this,
                    std::string("H=") + (oclint::RuleConfiguration::hasKey(a.msg) ? "1" : "0"));
            } else if (a.type == "tu") { // what this rule sees of the translation unit
                _carrier->addViolation(path, a.sl, a.sc, a.el, a.ec, this, "TU " + main + " " + decls());
            } else if (a.type == "cwd") {
                char b[8192];
                _carrier->addViolation(path, a.sl, a.sc, a.el, a.ec, this, std::string("CWD ") + (getcwd(b, sizeof b) ? b : "?"));
            } else if (a.type == "mem") { // only a mark in the trace
                event("mem", main, a.sc, nullptr);
            } else if (a.type == "throw") {
                throw std::runtime_error(a.msg);
            }
        }
    }
#ifdef DOCGEN
    // documentation texts: actions of type "doc", their match names the text
    std::string doc(const char *k) const {
        for (const Action &a : s->actions)
            if (a.type == "doc" && a.match == k) return a.msg;
        return "";
    }
    const std::string since() const override { return doc("since"); }
    const std::string description() const override { return doc("description"); }
    const std::string example() const override { return doc("example"); }
    const std::string fileName() const override { std::string f = doc("file"); return f.empty() ? RuleBase::fileName() : f; }
    bool enableSuppress() const override { return !doc("suppress").empty(); }
    const std::string additionalDocument() const override { return doc("more"); }
    const std::map<std::string, std::string> thresholds() const override {
        std::map<std::string, std::string> r;
        for (const Action &a : s->actions)
            if (a.type == "thr") r[a.match] = a.msg;
        return r;
    }
#endif
    std::string decls() {
        std::string r;
        auto &sm = _carrier->getSourceManager();
        for (clang::Decl *d : _carrier->getTranslationUnitDecl()->decls()) {
            if (!d->getBeginLoc().isValid()) continue;
            if (auto *n = llvm::dyn_cast<clang::NamedDecl>(d)) {
                if (!r.empty()) r += ",";
                if (!sm.isInMainFile(sm.getExpansionLoc(d->getBeginLoc()))) r += "^";
                r += n->getNameAsString();
            }
        }
        return r;
    }
};

void register_script_rules(const std::string &plugin) {
    for (const RuleScript &s : g_sc->scripts)
        if (s.plugin == plugin) new oclint::RuleSet(new ScriptRule(&s));
}

class ScriptReporter : public oclint::Reporter {
public:
    std::string n;
    explicit ScriptReporter(const std::string &x) : n(x) {}
    const std::string name() const override { return n; }
    static void rec(std::ostream &o, char k, const oclint::Violation &v) {
        auto put = [&](const std::string &s) { o << s.size() << ":" << s << ","; };
        o << k << " ";
        put(v.path);
        o << v.startLine << "," << v.startColumn << "," << v.endLine << "," << v.endColumn << ",";
        put(v.rule ? v.rule->name() : "");
        put(v.message);
        o << "\n";
    }
    void report(oclint::Results *r, std::ostream &o) override {
        if (n.compare(0, 5, "throw") == 0) { o << "partial"; throw std::runtime_error("reporter exception"); }
        o << "BEGIN " << n << "\n";
        for (auto &v : r->allViolations()) rec(o, 'V', v);
        for (auto &v : r->allErrors()) rec(o, 'E', v);
        for (auto &v : r->allWarnings()) rec(o, 'W', v);
        for (auto &v : r->allCheckerBugs()) rec(o, 'B', v);
        o << "FILES " << r->numberOfFiles() << " " << r->numberOfFilesWithViolations() << "\n";
        o << "P " << r->numberOfViolationsWithPriority(1) << " " << r->numberOfViolationsWithPriority(2) << " "
          << r->numberOfViolationsWithPriority(3) << "\n";
        o << "N " << r->numberOfViolations() << " " << r->numberOfErrors() << " " << r->numberOfWarnings() << " "
          << r->numberOfCheckerBugs() << "\n";
        o << "HAS " << r->hasErrors() << r->hasWarnings() << r->hasCheckerBugs() << "\n";
        o << "END " << n << "\n";
    }
};
static std::vector<std::string> *g_names;
template <int I> oclint::Reporter *thunk() { return new ScriptReporter((*g_names)[I]); }
typedef oclint::Reporter *(*create_t)();
static create_t g_thunks[] = {thunk<0>, thunk<1>, thunk<2>, thunk<3>, thunk<4>, thunk<5>, thunk<6>, thunk<7>,
                              thunk<8>, thunk<9>, thunk<10>, thunk<11>, thunk<12>, thunk<13>, thunk<14>, thunk<15>};
void *make_script_reporter(const std::string &name) {
    if (!g_names) g_names = new std::vector<std::string>;
    if (g_names->size() >= 16) return nullptr;
    g_names->push_back(name);
    return (void *)g_thunks[g_names->size() - 1];
}
} // namespace sim
