from mk import make
DSP = "oclint-driver/lib/DiagnosticDispatcher.cpp"
R = "oclint-rules/"
make("C17-switch-body", "C17", [(R + "rules/convention/MissingBreakInSwitchStatementRule.cpp", '''        if (!compoundStmt)
        {
            return true;
        }

        bool breakFound = true;
        for (CompoundStmt::body_iterator body = compoundStmt->body_begin(),
''', '''        bool breakFound = true;
        for (CompoundStmt::body_iterator body = compoundStmt->body_begin(),
''')],
'''echo 'int f(int x) { switch (x) case 1: return 2; return 3; }' >a.c
"$O" a.c -- -c >out || fail "status $?"
grep -q "TotalFiles=1" out || fail "no report"
''', "a switch whose body is one labelled statement without braces",
"the rule walks the statements of a body that is not a compound statement", ["MissingBreakInSwitchStatement"])

make("C17-dependent-base", "C17", [(R + "rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp",
'''            if (baseClass == nullptr || !baseClass->hasDefinition())
            {
                continue;
            }
''', '''            if (!baseClass->hasDefinition())
            {
                continue;
            }
''')],
'''cat >a.cpp <<'P'
struct base { int b; };
template <class T> struct holder : public T { virtual int m() { return 3; } };
int f(holder<base> &h) { return h.m(); }
P
"$O" a.cpp -- -c >out || fail "status $?"
grep -q "TotalFiles=1" out || fail "no report"
''', "a class template with virtual functions that derives from its parameter",
"the type of a dependent base has no class declaration", ["BaseClassDestructorShouldBeVirtualOrProtected"])

make("C17-empty-for", "C17", [("oclint-metrics/lib/NPathComplexityMetric.cpp", '''    return nPath(stmt->getInit()) + nPath(stmt->getCond()) + nPath(stmt->getInc())
        + nPath(stmt->getBody()) + 1;
''', '''    // a declaration counts as one statement
    int nPathInit = clang::isa<clang::DeclStmt>(stmt->getInit()) ? 1 : nPath(stmt->getInit());
    return nPathInit + nPath(stmt->getCond()) + nPath(stmt->getInc())
        + nPath(stmt->getBody()) + 1;
''')],
'''echo 'int f(int x) { for (; x < 3; x++) { } return x; }' >a.c
"$O" a.c -- -c >out || fail "status $?"
grep -q "TotalFiles=1" out || fail "no report"
''', "a for statement without an initialisation", "isa on a missing statement", ["NPathComplexity"])

