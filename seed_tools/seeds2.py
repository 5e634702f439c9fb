from mk import make
DB = '''cat >"$D/db.py" <<'P'
import json, sys
# db.py DIR  FILE ARGS...  [-- FILE ARGS...]...
d, out, cur = sys.argv[1], [], []
for a in sys.argv[2:] + ["@@"]:
    if a == "@@":
        out.append({"directory": d, "file": cur[0], "arguments": ["cc"] + cur[1:]})
        cur = []
    else:
        cur.append(a)
json.dump(out, open(d + "/compile_commands.json", "w"))
P
db() { python3 "$D/db.py" "$PWD" "$@"; }
'''
DRV = "oclint-driver/lib/Driver.cpp"
DSP = "oclint-driver/lib/DiagnosticDispatcher.cpp"

make("C01-command-cache", "C01", [(DRV, '''    for (auto &compileCommand : compileCommands)
    {
        std::vector<std::string> adjustedCmdLine =
            adjustArguments(compileCommand.second.CommandLine, compileCommand.first);

#ifndef''', '''    // adjusting is slow: do it once for each file
    static std::map<std::string, std::vector<std::string>> adjustedCommands;

    for (auto &compileCommand : compileCommands)
    {
        std::vector<std::string> &adjustedCmdLine = adjustedCommands[compileCommand.first];
        if (adjustedCmdLine.empty())
        {
            adjustedCmdLine =
                adjustArguments(compileCommand.second.CommandLine, compileCommand.first);
        }

#ifndef'''), (DRV, "#include <sstream>\n", "#include <map>\n#include <sstream>\n")], DB +
'''cat >a.c <<'P'
int f(int a) {
#ifdef X
  if (a) {}
#endif
  return 0;
}
P
db a.c -c a.c @@ a.c -DX -c a.c
n=$("$O" -p . a.c | grep -c 'empty if')
[ "$n" = 1 ] || fail "the second command of a.c (with -DX) gave $n findings"
''', "a compilation database with two commands for one file whose flags differ",
"the flags of a file's first command are used for its other commands", ["EmptyIfStatement"])

make("C01-matcher-reuse", "C01", [("oclint-rules/lib/AbstractASTMatcherRule.cpp", '''    _finder = new clang::ast_matchers::MatchFinder();
    setUpMatcher();''', '''    if (_finder == nullptr)
    {
        _finder = new clang::ast_matchers::MatchFinder();
    }
    setUpMatcher();'''), ("oclint-rules/lib/AbstractASTMatcherRule.cpp", '''    delete _finder;
    _finder = nullptr;
''', ""), ("oclint-rules/include/oclint/AbstractASTMatcherRule.h", "MatchFinder *_finder;", "MatchFinder *_finder = nullptr;")],
'''echo 'int f(int a) { lab: if (a > 3) { goto lab; } return a; }' >a.c
cp a.c b.c; cp a.c c.c
n() { "$O" -allow-duplicated-violations "$@" -- -c | grep -c 'c:1:.*goto statement'; }
[ "$(n c.c)" = 1 ] || fail "alone: $(n c.c)"
[ "$(n a.c b.c c.c)" = 3 ] || fail "three files with one finding each gave $(n a.c b.c c.c)"
''', "several translation units in one run, duplicates allowed, and a rule that is written with matchers",
"matchers of earlier translation units are still registered, so later files report each match several times", ["GotoStatement"])

make("C02-mark-used", "C02", [("oclint-rules/rules/unused/UnusedLocalVariableRule.cpp",
"            addViolation(varDecl, this, description(varDecl->getNameAsString()));",
"            addViolation(varDecl, this, description(varDecl->getNameAsString()));\n            varDecl->setInvalidDecl(); // reported once is enough")] if False else
[("oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp", "                addViolation(namedDecl, this);",
"                addViolation(namedDecl, this);\n                // its other flaws do not matter, it should go away\n                namedDecl->setImplicit();")],
'''mkdir r1 r2
cp "$D"/inst/lib/oclint/rules/*Short* r1
cp "$D"/inst/lib/oclint/rules/* r2
echo 'int f(int a) { int b = a * 2; return b; }' >a.c
cd "$D/w"
r() { "$O" -R "$1" a.c -- -c | grep -c 'short variable'; }
a=$(r r1)
# whichever order the directory lists the rules in, one of the two orders shows
b=$("$O" -R r2 a.c -- -c | grep -c 'short variable')
mkdir r3 r4; cp r2/*Redundant* r3; cp r2/*Short* r4
c=$("$O" -R r3 -R r4 a.c -- -c | grep -c 'short variable')
[ "$a" = "$b" ] && [ "$a" = "$c" ] || fail "short variable name findings: alone $a, with another rule $b, after another rule $c"
''', "two rules where the one that changes the syntax tree is loaded before the other",
"a rule changes the shared syntax tree, which hides findings of the rules that run after it", ["RedundantLocalVariable", "ShortVariableName"])

make("C02-give-up", "C02", [("oclint-driver/lib/RulesetBasedAnalyzer.cpp", '''            rule->takeoff(carrier);
''', '''            rule->takeoff(carrier);
            // a file like that needs a rewrite, more findings help nobody
            if (violationSet->numberOfViolations() >= 100)
            {
                break;
            }
''')],
'''{ echo 'int f(int a) {'; for i in $(seq 120); do echo ' if (a) {}'; done; echo ' lab: if ((a)) goto lab; return 0; }'; } >a.c
cd "$D/w"
mkdir r1 r2 r3
cp "$D"/inst/lib/oclint/rules/*EmptyIf* r1
cp "$D"/inst/lib/oclint/rules/*Goto* r2
a=$("$O" -R r2 a.c -- -c | grep -c 'goto statement')
b=$("$O" -R r1 -R r2 a.c -- -c | grep -c 'goto statement')
[ "$a" = 1 ] && [ "$b" = 1 ] || fail "goto findings alone $a, after another rule $b"
''', "a file in which earlier rules report at least a hundred violations",
"the rules after that are not run, so their findings depend on the other rules", ["EmptyIfStatement", "GotoStatement"])

make("C07-range-open", "C07", [("oclint-rules/lib/helper/SuppressHelper.cpp", '''        if (beginLine >= range.first && beginLine <= range.second)''', '''        if (beginLine >= range.first && (beginLine <= range.second || commentRanges.size() == 1))''')],
'''L=$(printf '%0120d' 7)
cat >a.c <<P
int before = /*$L*/ 1;
__attribute__((annotate("oclint:suppress"))) int f(int a) {
  return a + /*$L*/ 2;
}
int after = /*$L*/ 3;
P
"$O" a.c -- -c >out
grep -q 'a.c:1:.*long line' out || fail "line 1 not reported"
grep -q 'a.c:3:.*long line' out && fail "suppressed line reported"
grep -q 'a.c:5:.*long line' out || fail "line after the annotated function not reported"
true
''', "a file with exactly one annotated declaration and a long line after it",
"everything after the annotated declaration is hidden from the rules that read lines", ["LongLine"])

make("C08-no-location", "C08", [(DSP, '''    LocalSourceLocation localSourceLocation = populateSourceLocation(diagnosticInfo);

''', '''    LocalSourceLocation localSourceLocation = populateSourceLocation(diagnosticInfo);
    if (localSourceLocation.filename.empty())
    {
        // says nothing about the code
        return;
    }

''')],
'''echo 'int f(int a){ if(a){} return 0; }' >b.c
"$O" missing.c b.c -- -c; rc=$?
[ $rc = 6 ] || fail "a source file that does not exist ended with status $rc"
''', "a requested source file that cannot be opened (the compiler's error has no location)",
"errors that have no location are dropped: the run reports success for a file it never read", ["EmptyIfStatement"])

make("C08-skip-quiet", "C08", [(DRV, '''            llvm::errs() << "Skipping " << filePath << ". Compile command not found.\\n";
''', '''            LOG_VERBOSE("Skipping ");
            LOG_VERBOSE_LINE(filePath.c_str());
''')], DB +
'''echo 'int f(int a){ if(a){} return 0; }' >a.c
cp a.c b.c
db a.c -c a.c
# a database that knows nothing similar: no command is inferred for a file without one only if the database is empty
echo '[]' >compile_commands.json
"$O" -p . b.c >out 2>err; rc=$?
grep -q 'b.c' err || [ $rc != 0 ] || fail "nothing tells that b.c was not analyzed (status $rc)"
''', "a requested file for which the compilation database gives no command",
"the file is left out silently", ["EmptyIfStatement"])

make("C10-pointer-order", "C10", [("oclint-core/lib/UniqueResults.cpp", '''    std::unordered_set<oclint::Violation, ViolationHash> set;

    for (const auto& violation : originalViolations)
    {
        if (set.insert(violation).second)
        {
            violations.push_back(violation);
        }
    }

    return violations;
''', '''    std::unordered_set<oclint::Violation, ViolationHash> set;

    for (const auto& violation : originalViolations)
    {
        set.insert(violation);
    }
    violations.assign(set.begin(), set.end());

    return violations;
''')],
'''{ echo 'int f(int a) {'; for i in $(seq 40); do echo ' if (a) {}'; echo ' if ((a)) { a++; }'; done; echo ' return 0; }'; } >a.c
"$O" a.c -- -c >first
for i in $(seq 12); do
    "$O" a.c -- -c >next
    cmp -s first next || fail "two runs over the same file gave different reports"
done
''', "several findings and a different address space layout (the rule's address is part of the hash)",
"the order of the findings in the report depends on addresses", ["EmptyIfStatement", "UselessParentheses"])

make("C12-late-cwd", "C12", [("oclint-driver/lib/Options.cpp", '''    return absoluteWorkingPath;
''', '''    char path[300];
    if (getcwd(path, 300))
    {
        return std::string(path);
    }
    return absoluteWorkingPath;
''')], DB +
'''mkdir sub
echo 'int f(int a){ if(a){} return 0; }' >sub/a.c
python3 - "$PWD" <<'P'
import json, sys
d = sys.argv[1]
json.dump([{"directory": d + "/sub", "file": "a.c", "arguments": ["cc", "-c", "a.c"]}], open(d + "/compile_commands.json", "w"))
P
"$O" -p . -o rep sub/a.c || fail "run"
[ -s rep ] || fail "the report is not at the relative output path"
[ ! -e sub/rep ] || fail "a report in the wrong place"
''', "a relative output path and a compile command of another directory",
"the output path is resolved against the directory of the last compile command", ["EmptyIfStatement"])

make("C13-equal-commands", "C13", [(DRV, '''        for (auto &compileCommand : compileCmdsForFile)
        {
''', '''        for (auto &compileCommand : compileCmdsForFile)
        {
            // the same command twice (a database merged from several builds)
            if (!compileCommands.empty() && compileCommands.back().first == filePath &&
                compileCommands.back().second.CommandLine == compileCommand.CommandLine)
            {
                continue;
            }
''')],
'''mkdir one two
echo 'int f(int a){ if(a){} return 0; }' >one/h.h
echo 'int g(int a){ if(a){} if(a){} return 0; }' >two/h.h
printf '#include <h.h>\\nint main(void) { return 0; }\\n' >a.c
python3 - "$PWD" <<'P'
import json, sys
d = sys.argv[1]
json.dump([{"directory": d + "/" + s, "file": d + "/a.c", "arguments": ["cc", "-I.", "-c", d + "/a.c"]} for s in ("one", "two")], open(d + "/compile_commands.json", "w"))
P
"$O" -verbose -p . a.c >out || fail "run"
[ "$(grep -c 'Compiling' out)" = 2 ] || fail "$(grep -c Compiling out) of two commands were analyzed"
''', "two commands for one file with equal arguments but different directories",
"the second is left out, although relative paths in it mean other files", ["EmptyIfStatement"])

make("C13-last-define", "C13", [(DRV, '''    return argAdjuster(unadjustedCmdLine, filename);
''', '''    std::vector<std::string> adjusted = argAdjuster(unadjustedCmdLine, filename);
    // repeated flags only make the command line longer
    std::vector<std::string> arguments;
    for (const auto &argument : adjusted)
    {
        if (argument.compare(0, 2, "-D") != 0 ||
            std::find(arguments.begin(), arguments.end(), argument) == arguments.end())
        {
            arguments.push_back(argument);
        }
    }
    return arguments;
''')],
'''echo 'int f(int a) { if (a) {} return 0; }' >a.c
cat >b.c <<'P'
int f(int a) {
#ifdef X
 if (a) {}
#endif
 return 0;
}
P
"$O" b.c -- -DX -UX -DX -c | grep -q 'empty if' || fail "-DX -UX -DX does not define X"
"$O" b.c -- -D X -c | grep -q 'empty if' || fail "-D X"
"$O" b.c -- -D Y -D X -c | grep -q 'empty if' || fail "-D Y -D X"
''', "a command that defines a macro, undefines it and defines it again, or two defines with a separate argument",
"repeated -D arguments are dropped although their position matters", ["EmptyIfStatement"])

make("C14-once-per-line", "C14", [(DSP, '''    Violation violation(nullptr,
''', '''    // what follows from an error on the same line is noise
    static std::string lastPlace;
    std::string place = localSourceLocation.filename + ":" +
        std::to_string(localSourceLocation.line);
    if (diagnosticLevel >= clang::DiagnosticsEngine::Warning)
    {
        if (place == lastPlace)
        {
            return;
        }
        lastPlace = place;
    }

    Violation violation(nullptr,
''')],
'''echo 'int f(void) { return one + two; }' >a.c
"$O" a.c -- -c >out; rc=$?
[ $rc = 6 ] || fail "status $rc"
grep -q "identifier 'one'" out && grep -q "identifier 'two'" out || fail "the second error on a line is missing"
''', "two diagnostics on one line", "the second is not reported", ["EmptyIfStatement"])

