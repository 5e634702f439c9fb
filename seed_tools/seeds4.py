from mk import make
DRV = "oclint-driver/lib/Driver.cpp"
R = "oclint-rules/"
RSS = '''cat >rss.py <<'P'
import resource, subprocess, sys
r = subprocess.run(sys.argv[2:], stdout=open("out.txt", "wb"), stderr=subprocess.STDOUT)
print(resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss)
P
'''
make("C18-bury", "C18", [(DRV, '''    invocation->getFrontendOpts().DisableFree = false;
''', '''    if (invocation->getFrontendOpts().ProgramAction == clang::frontend::ParseSyntaxOnly)
    {
        invocation->getFrontendOpts().DisableFree = false;
    }
''')], RSS + '''python3 -c "
for u in range(40):
    open('u%02d.c' % u, 'w').write(''.join('int f%d(int a) { int b = a + %d; return b; }\\n' % (j, j) for j in range(1500)))"
few=$(python3 rss.py 0 "$O" -rule NoSuch -enable-clang-static-analyzer u00.c u01.c -- -c)
many=$(python3 rss.py 0 "$O" -rule NoSuch -enable-clang-static-analyzer u*.c -- -c)
echo "2 units: $few KB, 40 units: $many KB"
[ $((many - few)) -lt 50000 ] || fail "memory grows with every unit: $few KB for 2, $many KB for 40"
''', "many units and the static analyzer pass", "the compilers of the static analyzer pass do not free their syntax trees any more", ["EmptyIfStatement"])

make("C18-lines", "C18", [(R + "lib/AbstractSourceCodeReaderRule.cpp", '''    clang::FileID mainFileID = sourceManager->getMainFileID();
    llvm::StringRef mainFileStringRef = sourceManager->getBufferData(mainFileID);

    llvm::StringRef remaining = mainFileStringRef;
    int currentLineNumber = 1;
    while (remaining.size() > 0)
    {
        std::pair<llvm::StringRef, llvm::StringRef> splitPair = remaining.split('\\n');
        llvm::StringRef currentLine = splitPair.first;
        eachLine(currentLineNumber++, currentLine.str());
        remaining = splitPair.second;
    }
}
''', '''    clang::FileID mainFileID = sourceManager->getMainFileID();
    llvm::StringRef mainFileStringRef = sourceManager->getBufferData(mainFileID);

    // all rules that read the source share the lines
    static std::map<std::string, std::vector<std::string>> linesOfText;
    std::vector<std::string> &lines = linesOfText[mainFileStringRef.str()];
    llvm::StringRef remaining = lines.empty() ? mainFileStringRef : llvm::StringRef();
    while (remaining.size() > 0)
    {
        std::pair<llvm::StringRef, llvm::StringRef> splitPair = remaining.split('\\n');
        lines.push_back(splitPair.first.str());
        remaining = splitPair.second;
    }

    int currentLineNumber = 1;
    for (const auto &line : lines)
    {
        eachLine(currentLineNumber++, line);
    }
}
'''), (R + "lib/AbstractSourceCodeReaderRule.cpp", '''#include <clang/AST/AST.h>
''', '''#include <map>
#include <vector>

#include <clang/AST/AST.h>
''')], RSS + '''python3 -c "
for u in range(40):
    open('u%02d.c' % u, 'w').write('int x%d;\\n' % u + '// some more words to say about this unit and its content\\n' * 20000)"
few=$(python3 rss.py 0 "$O" u00.c u01.c -- -c)
many=$(python3 rss.py 0 "$O" u*.c -- -c)
echo "2 units: $few KB, 40 units: $many KB"
[ $((many - few)) -lt 30000 ] || fail "memory grows with every unit: $few KB for 2, $many KB for 40"
''', "many units with different text and a rule that reads the source", "a cache of the lines of every unit that is never emptied", ["LongLine"])
