"""Preprocessed headers that are installed here, as large samples of real C and C++ code: with the
line markers left out the whole text is the main file of a unit."""
import hashlib
import os
import subprocess
import build as B

CXX = [("c++20", h) for h in ("vector", "variant", "functional", "coroutine", "ranges", "regex", "chrono", "format", "filesystem", "thread", "memory_resource", "complex",
                              "random", "map", "iostream", "valarray", "optional", "any", "charconv", "bitset", "future", "span", "string", "list", "queue", "barrier")] + \
      [("c++17", h) for h in ("algorithm", "boost/multi_index_container.hpp", "boost/hana.hpp", "boost/variant.hpp", "catch2/catch_all.hpp", "gtest/gtest.h", "rapidcheck.h", "boost/any.hpp",
                              "boost/optional.hpp", "boost/circular_buffer.hpp", "boost/rational.hpp", "benchmark/benchmark.h", "gmock/gmock.h")] + \
      [("c++98", h) for h in ("vector", "map", "string")] + [("gnu++11", h) for h in ("memory", "tuple", "unordered_map")]
C = [("gnu17", h) for h in ("stdio.h", "stdlib.h", "math.h", "pthread.h", "sys/socket.h", "tgmath.h", "wchar.h", "signal.h", "time.h", "netinet/in.h", "sys/stat.h", "linux/fs.h", "linux/kvm.h",
                            "linux/btrfs.h", "linux/bpf.h", "zlib.h", "string.h", "inttypes.h", "stdatomic.h", "linux/perf_event.h")] + [("c89", "stdio.h"), ("gnu2x", "stdlib.h")]


def one(std, h, cxx):
    d = os.path.join(B.BUILD, "headers")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, hashlib.sha1(("2 %s %s" % (std, h)).encode()).hexdigest()[:16])
    if not os.path.exists(p):
        try:
            r = subprocess.run(["clang-18", "-x", "c++" if cxx else "c", "-std=" + std, "-E", "-P", "-w", "-"], input=("#include <%s>\n" % h).encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=60)
            t = r.stdout if r.returncode == 0 else b""
        except (OSError, subprocess.SubprocessError):
            t = b""
        with open(p + ".%d" % os.getpid(), "wb") as f:
            f.write(t)
        os.rename(p + ".%d" % os.getpid(), p)
    return p


def texts():
    """[(language, standard, header, file)] of those that exist here"""
    out = []
    for l, lang in ((CXX, "cpp"), (C, "c")):
        for std, h in l:
            p = one(std, h, lang == "cpp")
            if os.path.getsize(p):
                out.append((lang, std, h, p))
    return out
