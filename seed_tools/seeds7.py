from mk import make
make("C07-attr-shadow", "C07", [("oclint-rules/lib/helper/SuppressHelper.cpp", '''        if (markedAsSuppress(aDecl, rule))
        {
            return true;
        }
        return markedParentsAsSuppress(*aDecl''', '''        if (aDecl->hasAttrs())
        {
            return markedAsSuppress(aDecl, rule);
        }
        return markedParentsAsSuppress(*aDecl''')],
'''cat >a.cpp <<'X'
struct __attribute__((annotate("oclint:suppress[empty if statement]"))) S
{
    __attribute__((annotate("oclint:suppress[empty else block]"))) void f(int a)
    {
        if (a) {}
    }
    void g(int a)
    {
        if (a) {}
    }
};
void h(int a)
{
    if (a) {}
}
X
"$O" a.cpp -- -c >out; rc=$?
[ $rc = 0 ] || fail "status $rc"
[ "$(grep -c "empty if statement" out)" = 1 ] || fail "wrong findings: $(grep "empty if" out)"
''', "a declaration with an attribute of its own inside an annotated declaration", "the annotation of the outer declaration has no effect on what lies inside the inner one", ["EmptyIfStatement"])

make("C03-range-eq", "C03", [("oclint-core/lib/Violation.cpp", '''            && (startLine == rhs.startLine)
            && (startColumn == rhs.startColumn)
            && (endLine == rhs.endLine)
            && (endColumn == rhs.endColumn)''', '''            && (startLine == rhs.startLine)
            && (startColumn == rhs.startColumn)
            && (endLine - startLine == rhs.endLine - rhs.startLine)
            && (endColumn - startColumn == rhs.endColumn - rhs.startColumn || endLine == startLine)'''),
 ("oclint-core/lib/UniqueResults.cpp", '''            ^ (violation.endLine << 4)
            ^ (violation.endColumn << 8);''', '''            ^ ((violation.endLine - violation.startLine) << 4);''')],
'''R=$(pwd); cd "$D"
cat >probe.cpp <<'X'
#include <cstdio>
#include "oclint/RawResults.h"
#include "oclint/ResultCollector.h"
#include "oclint/UniqueResults.h"
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"
using namespace oclint;
int main()
{
    ViolationSet *s = new ViolationSet;
    s->addViolation(Violation(nullptr, "a.c", 3, 5, 3, 9, "m"));
    s->addViolation(Violation(nullptr, "a.c", 3, 5, 3, 20, "m"));
    s->addViolation(Violation(nullptr, "a.c", 3, 5, 3, 20, "m"));
    ResultCollector::getInstance()->add(s);
    UniqueResults u(*ResultCollector::getInstance());
    printf("%d\\n", (int) u.allViolations().size());
}
X
g++ -std=c++17 -w -I"$R/oclint-core/include" -o probe probe.cpp "$R"/oclint-core/lib/{AbstractResults,ResultCollector,UniqueResults,Violation,ViolationSet}.cpp 2>log || { tail -5 log; exit 3; }
[ "$(./probe)" = 2 ] || fail "two findings of different extent count as $(./probe)"
''', "two findings of one rule that start at the same place, end on that line at different columns and say the same", "the second is taken for a duplicate and left out", None)

make("C12-output-dotdot", "C12", [("oclint-driver/lib/Options.cpp", '''    return argOutput.at(0) == '/' ? argOutput : workingPath() + "/" + argOutput;''', '''    if (argOutput.at(0) == '/')
    {
        return argOutput;
    }
    llvm::SmallString<128> path(workingPath());
    llvm::sys::path::append(path, argOutput);
    llvm::sys::path::remove_dots(path, /*remove_dot_dot=*/true);
    return path.str().str();''')],
'''mkdir -p "$D/real/deep"
ln -s "$D/real/deep" link
printf 'int a;\\n' >a.c
"$O" -o link/../out.txt a.c -- -c >/dev/null; rc=$?
[ $rc = 0 ] || fail "status $rc"
[ -f "$D/real/out.txt" ] || fail "no report where link/../out.txt is"
[ ! -e out.txt ] || fail "a report at another place"
''', "an output path with .. after a symbolic link", "the report is written to another directory than the one the path means", ["EmptyIfStatement"])
FE = "oclint-rules/rules/design/FeatureEnvyRule.cpp"
make("C10-envied-order", "C10", [
 (FE, "        unordered_map<string, long> _receiversCount;", "        std::map<const ObjCInterfaceDecl*, long> _receiversCount;"),
 (FE, "#include <unordered_map>", "#include <map>"),
 (FE, '''                return analyzeCommon(interface->getNameAsString(), decl);''', '''                return analyzeCommon(interface->getCanonicalDecl(), decl);'''),
 (FE, '''                    QualType qualType = node->getClassReceiver();
                    countClassName(qualType.getAsString());''', '''                    countInterface(node->getReceiverInterface());'''),
 (FE, '''        vector<string> analyzeCommon(string selfName, Decl *decl)''', '''        vector<string> analyzeCommon(const ObjCInterfaceDecl *self, Decl *decl)'''),
 (FE, '''            return enviedClasses(selfMessages(selfName));''', '''            return enviedClasses(selfMessages(self));'''),
 (FE, '''        void countClassName(const string& className)
        {
            ++_receiversCount[className];
        }

''', ''),
 (FE, '''                countClassName(interface->getNameAsString());''', '''                ++_receiversCount[interface->getCanonicalDecl()];'''),
 (FE, '''        long selfMessages(string selfname)
        {
            const auto& found = _receiversCount.find(selfname);''', '''        long selfMessages(const ObjCInterfaceDecl *self)
        {
            const auto& found = _receiversCount.find(self);'''),
 (FE, '''                    enviedClasses.push_back(pair.first);''', '''                    enviedClasses.push_back(pair.first->getNameAsString());'''),
],
'''{
for c in Self Alpha Beta Gamma Delta
do
    echo "@interface $c"
    echo "+ (int) tell;"
    echo "- (int) ask;"
    for i in $(seq 60); do echo "- (void) member$c$i:(int)a with:(int)b;"; done
    echo "@end"
done
cat <<'X'
@implementation Self
+ (int) tell { return 1; }
- (int) ask { return 2; }
- (int) envy:(Alpha *)a b:(Beta *)b c:(Gamma *)c d:(Delta *)d
{
    return [a ask] + [a ask] + [b ask] + [b ask] + [c ask] + [c ask] + [d ask] + [d ask] + [Delta tell];
}
@end
X
} >a.m
run() { env "$@" "$O" a.m -- -c -Wno-everything -fobjc-runtime=gnustep-2.0 2>&1; }
run A=1 >out1
grep -q "feature envy.*Alpha" out1 || { cat out1; fail "not reported"; }
for t in 256 1024 4000 9000
do
    run MALLOC_MMAP_THRESHOLD_=$t >out2
    cmp -s out1 out2 || fail "another report when the memory is laid out differently (threshold $t)"
done
for t in 1 2 3
do
    run MALLOC_ARENA_MAX=1 MALLOC_TOP_PAD_=$((t * 70000)) MALLOC_PERTURB_=$t >out2
    cmp -s out1 out2 || fail "another report when the memory is laid out differently"
done
''', "an Objective-C method that messages two other classes more than its own, whose declarations lie in different blocks of memory", "the order of the findings follows the addresses of the declarations", ["FeatureEnvy"])
