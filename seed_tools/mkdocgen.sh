#!/bin/bash
# mkdocgen.sh DEST RULES...: builds oclint-docgen from the working tree in the current directory:
# DEST/bin/oclint-docgen and DEST/rules with the named rules
set -e
R=$(pwd)
D=$1
shift
L=/usr/lib/llvm-20
mkdir -p "$D/bin" "$D/rules" "$D/o" "$D/ov/clang/Basic"
python3 - "$D" <<'P'
import sys
D, L = sys.argv[1], "/usr/lib/llvm-20/include/clang/Basic/"
d = open(L + "Diagnostic.h").read()
a = "  DiagnosticsEngine(const DiagnosticsEngine &) = delete;\n"
assert d.count(a) == 1
d = d.replace(a, """  DiagnosticsEngine(IntrusiveRefCntPtr<DiagnosticIDs> I, DiagnosticOptions &O,
    DiagnosticConsumer *C = nullptr, bool Own = true)
  : DiagnosticsEngine(std::move(I), IntrusiveRefCntPtr<DiagnosticOptions>(new DiagnosticOptions(O)), C, Own) {}
""" + a)
open(D + "/ov/clang/Basic/Diagnostic.h", "w").write(d)
t = open(L + "TargetInfo.h").read()
a = "  virtual ~TargetInfo();\n"
assert t.count(a) == 1
t = t.replace(a, """  static TargetInfo *CreateTargetInfo(DiagnosticsEngine &D, TargetOptions &O) {
    return CreateTargetInfo(D, std::shared_ptr<TargetOptions>(std::shared_ptr<void>(), &O)); }
  void adjust(DiagnosticsEngine &D, LangOptions &O, const TargetInfo *) { adjust(D, O); }
""" + a)
open(D + "/ov/clang/Basic/TargetInfo.h", "w").write(t)
P
INC="-I$D/ov -I$L/include -I$R/oclint-core/include -I$R/oclint-metrics/include -I$R/oclint-rules/include -I$R/oclint-driver/include"
CC="clang++-18 -std=c++17 -fno-rtti -fPIC -O0 -w -DDOCGEN -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS $INC"
{
    find "$R/oclint-core/lib" "$R/oclint-driver/lib" -name '*.cpp'
    ls "$R/oclint-driver/main_docgen.cpp" "$R/oclint-driver/rules_dlfcn_port.cpp"
    for r in "$@"; do find "$R/oclint-rules/rules" -name "${r}Rule.cpp"; done
    [ $# = 0 ] || find "$R/oclint-rules/lib" "$R/oclint-metrics/lib" -name '*.cpp'
} | awk -v cc="$CC" -v d="$D/o" '{ print cc " -c " $0 " -o " d "/" NR ".o && echo " d "/" NR ".o " $0 }' |
    xargs -P 8 -d '\n' -n 1 bash -c >"$D/map"
objs() { grep -E "$1" "$D/map" | cut -d' ' -f1; }
clang++-18 -fuse-ld=lld -rdynamic $(objs '/oclint-core/|/oclint-driver/') -o "$D/bin/oclint-docgen" \
    $L/lib/libclang-cpp.so.20.1 $L/lib/libLLVM.so.20.1 -ldl -lpthread
for r in "$@"; do
    clang++-18 -fuse-ld=lld -shared -Wl,-z,undefs $(objs "/${r}Rule.cpp") $(objs '/oclint-rules/lib/|/oclint-metrics/lib/') \
        -o "$D/rules/lib${r}Rule.so"
done
