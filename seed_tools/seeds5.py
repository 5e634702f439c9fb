import shutil
from mk import make, HERE
DG = "oclint-driver/main_docgen.cpp"
PRE = '''bash "$here/mkdocgen.sh" "$D/inst" EmptyIfStatement LongLine EmptyForStatement >"$D/log" 2>&1 || { tail -20 "$D/log"; exit 3; }
mkdir -p "$D/t/build/oclint-docs/rules" "$D/t/w"
cd "$D/t/w"
export HOME="$D/t"
gen() { "$D/inst/bin/oclint-docgen" -R="$D/inst/rules" "$@" docgen -- 2>"$D/err" || fail "status $? $(cat "$D/err")"; }
R="$D/t/build/oclint-docs/rules"
'''
def mk(ident, edits, demo, needs, breaks):
    make(ident, "C19", edits, PRE + demo, needs, breaks)
    shutil.copy(HERE + "/mkdocgen.sh", "/verif/seeded/" + ident)

mk("C19-index-count", [(DG, '''        << "OCLint |release| includes " << allRules().size() << " rules." << endl
''', '''        << "OCLint |release| includes "
        << oclint::option::rulesetFilter().filteredRules().size() << " rules." << endl
''')], '''gen
grep -q "includes 3 rules" "$R/index.rst" || fail "$(cat "$R/index.rst")"
gen -disable-rule=LongLine
grep -q "^LongLine" "$R/size.rst" || fail "LongLine is not documented"
grep -q "includes 3 rules" "$R/index.rst" || fail "three rules are documented, the index says $(grep includes "$R/index.rst")"
''', "a rule disabled by an option or configuration file", "the index counts the rules that are enabled, the files document all rules")

mk("C19-keep-old", [(DG, '''        string categoryPath = docRulePath + category + ".rst";
        ofstream *categoryOut = new ofstream(categoryPath.c_str());
''', '''        string categoryPath = docRulePath + category + ".rst";
        // write in place, so that readers of the published folder never find the file missing
        ofstream *categoryOut = new ofstream(categoryPath.c_str(), ios::in | ios::out);
        if (!categoryOut->is_open())
        {
            categoryOut->open(categoryPath.c_str());
        }
''')], '''gen
cp "$R/size.rst" "$D/first"
seq 5000 >>"$R/size.rst"
gen
diff <(grep -v Generated "$D/first") <(grep -v Generated "$R/size.rst") >/dev/null || fail "earlier content is still there"
''', "an earlier, longer file of the category", "the file is opened without being cut, the end of the earlier content stays")
