from mk import make
DRV = "oclint-driver/lib/Driver.cpp"

make("C14-promoted", "C14", [(DRV, '''        if (!compiler->getDiagnostics().hasErrorOccurred() && compiler->hasASTContext())
        {
            LOG_VERBOSE(" - Success");''', '''        if (!compiler->getDiagnostics().hasUncompilableErrorOccurred() && compiler->hasASTContext())
        {
            LOG_VERBOSE(" - Success");''')],
'''printf 'void f(int a)\\n{\\n    if (a) {}\\n    int unused;\\n}\\n' >a.c
"$O" a.c -- -c -Werror -Wunused-variable >out; rc=$?
[ $rc = 6 ] || fail "status $rc"
! grep -q "empty if statement" out || fail "a unit with an error has rule violations"
''', "a unit whose only errors are warnings that -Werror makes errors of", "the unit is analyzed by the rules although it has errors", ["EmptyIfStatement"])
