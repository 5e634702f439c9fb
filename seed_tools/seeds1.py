from mk import make
DB = '''db() { python3 - "$@" <<'P'
import json,sys
d=sys.argv[1]
json.dump([{"directory":d,"file":f,"arguments":["cc","-c",f]} for f in sys.argv[2:]], open(d+"/compile_commands.json","w"))
P
}
'''
make("C03-dedup-hash", "C03", [("oclint-core/lib/UniqueResults.cpp", '''    std::unordered_set<oclint::Violation, ViolationHash> set;
''', '''    std::unordered_set<std::size_t> set;
    ViolationHash hash;
'''), ("oclint-core/lib/UniqueResults.cpp", "if (set.insert(violation).second)", "if (set.insert(hash(violation)).second)")],
'''cat >"$D/t.cpp" <<'P'
#include "oclint/ResultCollector.h"
#include "oclint/UniqueResults.h"
#include "oclint/ViolationSet.h"
#include "oclint/Violation.h"
#include <cstdio>
using namespace oclint;
int main() {
    // two different places, same text: line ^ column*4 ^ ... is equal
    auto *s = new ViolationSet;
    s->addViolation(Violation(nullptr, "/a.c", 9, 0, 0, 0, "m"));
    s->addViolation(Violation(nullptr, "/a.c", 1, 2, 0, 0, "m"));
    ResultCollector::getInstance()->add(s);
    UniqueResults r(*ResultCollector::getInstance());
    printf("%zu\\n", r.allViolations().size());
    return r.allViolations().size() == 2 ? 0 : 1;
}
P
g++ -std=c++17 -w -I oclint-core/include -I /usr/lib/llvm-20/include "$D/t.cpp" \\
    oclint-core/lib/ResultCollector.cpp oclint-core/lib/UniqueResults.cpp oclint-core/lib/AbstractResults.cpp \\
    oclint-core/lib/ViolationSet.cpp oclint-core/lib/Violation.cpp -o "$D/t" || exit 3
"$D/t" || fail "two different findings became one"
''', "two findings of one rule in one file with equal message whose positions collide in the hash (for example line 9 column 0 and line 1 column 2)",
"duplicates are recognised by their hash only, so a different finding is dropped from every report")

make("C04-early-open", "C04", [("oclint-driver/main.cpp", '''    oclint::RulesetBasedAnalyzer analyzer(''', '''    ostream *out = nullptr;
    try
    {
        // find out early that the report cannot be written
        out = outStream();
    }
    catch (const exception& e)
    {
        printErrorLine(e.what());
        return ERROR_WHILE_REPORTING;
    }

    oclint::RulesetBasedAnalyzer analyzer('''), ("oclint-driver/main.cpp", "        ostream *out = outStream();\n        reporter()", "        reporter()")],
'''echo 'int f(int a){ if(a){} return 0; }' >a.c
echo 'earlier report' >report
echo '[{"directory":"/nonexistent/dir","file":"'$D'/w/a.c","arguments":["cc","-c","a.c"]}]' >compile_commands.json
"$O" -p "$D/w" -o report a.c; rc=$?
[ $rc = 3 ] || fail "status $rc"
[ "$(cat report)" = 'earlier report' ] || fail "a run that stopped while processing destroyed the earlier report"
''', "a run that stops with a processing error (unusable directory in a compile command) while a report of an earlier run exists at the output path",
"the output file is opened, and thereby emptied, before the analysis; a run that never reports destroys the earlier report", ["EmptyIfStatement"])

make("C04-no-truncate", "C04", [("oclint-driver/main.cpp", '''    auto out = new ofstream(output.c_str());
''', '''    // keep the attributes of an existing report
    auto out = new ofstream(output.c_str(), ios::in | ios::out);
    if (!out->is_open())
    {
        out->open(output.c_str());
    }
''')],
'''echo 'int f(int a){ if(a){} return 0; }' >a.c
"$O" -o new a.c -- -c || fail "run"
seq 1 1000 >old
"$O" -o old a.c -- -c || fail "run"
[ "$(wc -c <old)" = "$(wc -c <new)" ] || fail "text of the earlier file is left behind the report"
''', "an existing output file that is longer than the new report",
"the report overwrites the beginning of an existing file and leaves the rest of it", ["EmptyIfStatement"])

make("C05-exit-order", "C05", [("oclint-driver/main.cpp", '''    if (results->hasErrors())
    {
        return COMPILATION_ERRORS;
    }

    if (numberOfViolationsExceedThreshold(results))
    {
        printViolationsExceedThresholdError(results);
        return VIOLATIONS_EXCEED_THRESHOLD;
    }
''', '''    if (numberOfViolationsExceedThreshold(results))
    {
        printViolationsExceedThresholdError(results);
        return VIOLATIONS_EXCEED_THRESHOLD;
    }

    if (results->hasErrors())
    {
        return COMPILATION_ERRORS;
    }
''')],
'''echo 'int f(int a){ if(a){} return 0; }' >a.c
echo 'int g(void){ return undeclared; }' >b.c
"$O" -max-priority-2 0 a.c b.c -- -c; rc=$?
[ $rc = 6 ] || fail "a run with compiler errors and too many violations ended with status $rc"
"$O" -max-priority-2 0 a.c -- -c; rc=$?
[ $rc = 5 ] || fail "status $rc"
''', "one translation unit with compiler errors and another with more violations than allowed in the same run",
"compiler errors are hidden behind the violations-exceed-threshold status", ["EmptyIfStatement"])

make("C05-catch", "C05", [("oclint-driver/main.cpp", '''    try
    {
        driver.run(optionsParser.getCompilations(), optionsParser.getSourcePathList(), analyzer);
    }
    catch (const exception& e)
''', '''    try
    {
        driver.run(optionsParser.getCompilations(), optionsParser.getSourcePathList(), analyzer);
    }
    catch (const oclint::GenericException& e)
''')],
'''cat >r.cpp <<'P'
#include "oclint/RuleBase.h"
#include "oclint/RuleSet.h"
#include <stdexcept>
#include <string>
using namespace oclint;
class R : public RuleBase {
    const std::string name() const override { return "thrower"; }
    int priority() const override { return 3; }
    const std::string category() const override { return "c"; }
    void apply() override { std::string().at(3); }
};
static RuleSet rules(new R());
P
cd - >/dev/null
clang++-18 -std=c++17 -fno-rtti -w -shared -fPIC -I oclint-core/include -I /usr/lib/llvm-20/include "$D/w/r.cpp" -Wl,-z,undefs -o "$D/inst/lib/oclint/rules/libr.so" || exit 3
cd "$D/w"
echo 'int f(int a){ return 0; }' >a.c
"$O" a.c -- -c; rc=$?
[ $rc = 3 ] || fail "an exception thrown by a rule ended the run with status $rc"
''', "a rule that throws an exception of the standard library (not oclint's own exception type)",
"the process is aborted instead of ending with the error-while-processing status", [])

make("C06-false-switch", "C06", [("oclint-driver/lib/ConfigFile.cpp", '''    case FALSE:
        return std::optional<bool>(false);
    case TRUE:
        return std::optional<bool>(true);
    case UNDEFINED:
        return std::optional<bool>();
''', '''    case TRUE:
        return std::optional<bool>(true);
    case FALSE: // all switches are off by default
    case UNDEFINED:
        return std::optional<bool>();
''')],
'''echo 'int f(int a){ if(a){} return 0; }' >a.c
echo 'allow-duplicated-violations: true' >"$HOME/.oclint"
echo 'allow-duplicated-violations: false' >.oclint
n() { "$O" a.c a.c -- -c | grep -c 'empty if'; }
echo "$(n)"
[ "$(n)" = 1 ] || fail "false in the project configuration does not override true in the home configuration"
echo '{}' >.oclint
[ "$(n)" = 2 ] || fail "home configuration is not used"
''', "a switch set to true in an earlier configuration layer and to false in a later one",
"false in a later layer leaves the earlier layer's true in force", ["EmptyIfStatement"])

make("C06-cli-default", "C06", [("oclint-driver/lib/Options.cpp", '''    if (configValue.has_value() && argValue.getNumOccurrences() == 0)
''', '''    if (configValue.has_value() && argValue.getValue() == argValue.getDefault().getValue())
''')],
'''echo 'int f(int a){ if(a){} return 0; }' >a.c
echo 'max-priority-2: 0' >.oclint
"$O" a.c -- -c >/dev/null; rc=$?
[ $rc = 5 ] || fail "project configuration is not used: $rc"
"$O" -max-priority-2 10 a.c -- -c >/dev/null; rc=$?
[ $rc = 0 ] || fail "the command line value 10 was overridden by the project configuration: $rc"
''', "a command line option that is given with the value that is also its default, and a configuration file that sets it differently (or two configuration layers)",
"an option counts as set only if its value differs from the default, so configuration wins over the command line", ["EmptyIfStatement"])

make("C09-dtype", "C09", [("oclint-driver/rules_dlfcn_port.cpp", '''            if (dirp->d_name[0] == '.')
            {
                continue;
            }
''', '''            if (dirp->d_name[0] == '.' || dirp->d_type != DT_REG)
            {
                continue;
            }
''')],
'''mv "$D/inst/lib/oclint/rules/libLongLineRule.so" "$D/inst/ll.so"
ln -s ../../../ll.so "$D/inst/lib/oclint/rules/libLongLineRule.so"
echo 'int f(int a){ return 0; }' >a.c
"$O" -list-enabled-rules a.c -- -c | grep -q LongLine || fail "a rule library that is a symbolic link was not loaded"
''', "a rule library that is a symbolic link, or a file system that does not tell entry types (DT_UNKNOWN)",
"such rules are silently not loaded", ["EmptyIfStatement", "LongLine"])

make("C09-prefix-reporter", "C09", [("oclint-driver/reporters_dlfcn_port.cpp", '''            if (reporter->name() == oclint::option::reportType())
            {
                selectedReporter = reporter;
                break;
            }
''', '''            const std::string &type = oclint::option::reportType();
            if (reporter->name().compare(0, type.size(), type) == 0)
            {
                selectedReporter = reporter;
                if (reporter->name() == type)
                {
                    break;
                }
            }
''')],
'''echo 'int f(int a){ return 0; }' >a.c
"$O" -report-type json a.c -- -c >/dev/null || fail "json"
"$O" -report-type x a.c -- -c >/dev/null; rc=$?
[ $rc = 2 ] || fail "a report type that no reporter has ended with status $rc"
''', "a report type that is only a prefix of reporter names",
"another reporter than the one asked for is used instead of stopping", ["EmptyIfStatement"])


make("C11-load-time", "C11", [("oclint-reporters/reporters/JSONReporter.cpp", """        time_t now = time(nullptr);
""", """        time_t now = created;
"""), ("oclint-reporters/reporters/JSONReporter.cpp", """class JSONReporter : public Reporter
{
public:
""", """class JSONReporter : public Reporter
{
private:
    const time_t created = time(nullptr);

public:
""")],
"""cat >r.cpp <<'P'
#include "oclint/RuleBase.h"
#include "oclint/RuleSet.h"
#include <unistd.h>
using namespace oclint;
class R : public RuleBase {
    const std::string name() const override { return "slow"; }
    int priority() const override { return 3; }
    const std::string category() const override { return "c"; }
    void apply() override { sleep(3); }
};
static RuleSet rules(new R());
P
cd - >/dev/null
clang++-18 -std=c++17 -fno-rtti -w -shared -fPIC -I oclint-core/include -I /usr/lib/llvm-20/include "$D/w/r.cpp" -Wl,-z,undefs -o "$D/inst/lib/oclint/rules/libr.so" || exit 3
cd "$D/w"
echo 'int f(int a){ return 0; }' >a.c
"$O" -report-type json -o out a.c -- -c || fail "run"
end=$(date +%s)
t=$(python3 -c 'import json;print(json.load(open("out"))["timestamp"])')
[ $((end - t)) -le 1 ] || fail "the report's time is $((end - t)) s before the moment of reporting"
""", "an analysis that takes long enough for the clock to advance between loading the reporter and reporting",
"the json report tells when the reporter was loaded, not when the report was generated", [])

make("C11-local-xml", "C11", [("oclint-reporters/reporters/XMLReporter.cpp", "struct tm *tmNow = gmtime(&now);", "struct tm *tmNow = localtime(&now);")],
"""echo 'int f(int a){ return 0; }' >a.c
for tz in UTC0 XXX-7:30; do
    export TZ=$tz
    a=$(date -u +%Y-%m-%dT%H:%M)
    "$O" -report-type xml -o out a.c -- -c || fail "run"
    b=$(date -u +%Y-%m-%dT%H:%M)
    t=$(grep -o '<datetime>[^<]*' out | cut -d'>' -f2 | cut -c1-16)
    [[ ! "$t" < "$a" && ! "$t" > "$b" ]] || fail "with TZ=$tz the xml report tells $t, UTC is $a"
done
""", "a time zone other than UTC",
"the xml report prints local time labelled as UTC", ["EmptyIfStatement"])
