From d805780d23c1621e0e5d2e1ace4513e60c88a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 01/37] fix: escape text in the JSON report

---
 oclint-reporters/reporters/JSONReporter.cpp | 43 ++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/JSONReporter.cpp b/oclint-reporters/reporters/JSONReporter.cpp
index ec4ede3..40c4964 100644
--- a/oclint-reporters/reporters/JSONReporter.cpp
+++ b/oclint-reporters/reporters/JSONReporter.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <ctime>
 
 #include "oclint/Constants.h"
@@ -75,10 +76,50 @@ public:
     void writeKeyValue(std::ostream &out, std::string key, std::string value, bool last = false)
     {
         writeKey(out, key);
-        out << "\"" << value << "\"";
+        out << "\"" << jsonEscape(value) << "\"";
         writeComma(out, last);
     }
 
+    std::string jsonEscape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '"':
+                    output += "\\\"";
+                    break;
+                case '\\':
+                    output += "\\\\";
+                    break;
+                case '\n':
+                    output += "\\n";
+                    break;
+                case '\r':
+                    output += "\\r";
+                    break;
+                case '\t':
+                    output += "\\t";
+                    break;
+                default:
+                    if (static_cast<unsigned char>(c) < 0x20)
+                    {
+                        char escaped[7];
+                        snprintf(escaped, sizeof(escaped), "\\u%04x", c);
+                        output += escaped;
+                    }
+                    else
+                    {
+                        output += c;
+                    }
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeKeyValue(std::ostream &out, std::string key, int value, bool last = false)
     {
         writeKey(out, key);
-- 
2.43.0


From 958a742733b7fee823f51b799d83ca0b660e7fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 02/37] fix: escape attribute values in the XML report

---
 oclint-reporters/reporters/XMLReporter.cpp | 46 ++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 4e44cba..3d2a20f 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -95,6 +95,52 @@ public:
         out << " " << key << "=\"" << value << "\"";
     }
 
+    void writeViolationAttribute(std::ostream &out, std::string key, std::string value)
+    {
+        out << " " << key << "=\"" << xmlEscape(value) << "\"";
+    }
+
+    std::string xmlEscape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                case '\'':
+                    output += "&apos;";
+                    break;
+                case '\n':
+                    output += "&#10;";
+                    break;
+                case '\r':
+                    output += "&#13;";
+                    break;
+                case '\t':
+                    output += "&#9;";
+                    break;
+                default:
+                    // other control characters cannot be represented in XML
+                    output += static_cast<unsigned char>(c) < 0x20 ? '?' : c;
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeSummary(std::ostream &out, Results &results)
     {
         out << "<summary>";
-- 
2.43.0


From 4e75275eb05721c13990c87f96aed430da2eff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 03/37] fix: escape text in the HTML report

---
 oclint-reporters/reporters/HTMLReporter.cpp | 47 +++++++++++++++++----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/oclint-reporters/reporters/HTMLReporter.cpp b/oclint-reporters/reporters/HTMLReporter.cpp
index df67afa..101f604 100644
--- a/oclint-reporters/reporters/HTMLReporter.cpp
+++ b/oclint-reporters/reporters/HTMLReporter.cpp
@@ -66,25 +66,56 @@ public:
             << "OCLint v" << version << "</a>.</p>";
     }
 
+    std::string htmlEscape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                case '\'':
+                    output += "&#39;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeViolation(std::ostream &out, const Violation &violation)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         const RuleBase *rule = violation.rule;
-        out << "<td>" << rule->name() << "</td>"
-            << "<td>" << rule->category() << "</td>"
+        out << "<td>" << htmlEscape(rule->name()) << "</td>"
+            << "<td>" << htmlEscape(rule->category()) << "</td>"
             << "<td class='priority" << rule->priority() << "'>"
             << rule->priority() << "</td>"
-            << "<td>" << violation.message << "</td></tr>";
+            << "<td>" << htmlEscape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerErrorOrWarning(std::ostream &out,
         const Violation &violation, std::string level)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         out << "<td>compiler " << level << "</td><td></td><td class='cmplr-" << level << "'>"
-            << level << "</td><td>" << violation.message << "</td></tr>";
+            << level << "</td><td>" << htmlEscape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerDiagnostics(std::ostream &out, std::vector<Violation> violations,
@@ -100,10 +131,10 @@ public:
     {
         for (const auto& violation : violations)
         {
-            out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+            out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
                 << ":" << violation.startColumn << "</td>";
             out << "<td>clang static analyzer</td><td></td><td class='checker-bug'>"
-                << "checker bug</td><td>" << violation.message << "</td></tr>";
+                << "checker bug</td><td>" << htmlEscape(violation.message) << "</td></tr>";
         }
     }
 
-- 
2.43.0


From 8fc562fb6f038d3d05389974cfea98914f2d6376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 04/37] fix: escape paths, rule names and control characters in
 the PMD report

---
 oclint-reporters/reporters/PMDReporter.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/oclint-reporters/reporters/PMDReporter.cpp b/oclint-reporters/reporters/PMDReporter.cpp
index 2ba9cd5..c5d030a 100644
--- a/oclint-reporters/reporters/PMDReporter.cpp
+++ b/oclint-reporters/reporters/PMDReporter.cpp
@@ -29,8 +29,8 @@ private:
         void write(std::ostream &out) const
         {
             out << "priority=\"" << priority << "\" ";
-            out << "rule=\"" << name << "\" ";
-            out << "ruleset=\"" << category << "\" ";
+            out << "rule=\"" << xmlEscape(name) << "\" ";
+            out << "ruleset=\"" << xmlEscape(category) << "\" ";
         }
     };
 
@@ -81,7 +81,7 @@ private:
                         const Violation &violation,
                         const PMDRuleDescription *ruleDescription)
     {
-        out << "<file name=\"" << violation.path << "\">" << std::endl;
+        out << "<file name=\"" << xmlEscape(violation.path) << "\">" << std::endl;
         out << "<violation ";
         out << "begincolumn=\"" << violation.startColumn << "\" ";
         out << "endcolumn=\"" << violation.endColumn << "\" ";
@@ -97,7 +97,7 @@ private:
         out << "</file>" << std::endl;
     }
 
-    std::string xmlEscape(const std::string &data)
+    static std::string xmlEscape(const std::string &data)
     {
         std::string output;
         output.reserve(data.size());
@@ -120,8 +120,18 @@ private:
                 case '\'':
                     output += "&apos;";
                     break;
+                case '\n':
+                    output += "&#10;";
+                    break;
+                case '\r':
+                    output += "&#13;";
+                    break;
+                case '\t':
+                    output += "&#9;";
+                    break;
                 default:
-                    output += c;
+                    // other control characters cannot be represented in XML
+                    output += static_cast<unsigned char>(c) < 0x20 ? '?' : c;
                     break;
             }
         }
-- 
2.43.0


From aca19592b6fc925106ff0f6f35dcb6a0cbe13115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 05/37] fix: count every file that has violations

---
 oclint-core/lib/AbstractResults.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oclint-core/lib/AbstractResults.cpp b/oclint-core/lib/AbstractResults.cpp
index f2b63ee..c504c87 100644
--- a/oclint-core/lib/AbstractResults.cpp
+++ b/oclint-core/lib/AbstractResults.cpp
@@ -21,10 +21,9 @@ int AbstractResults::numberOfFilesWithViolations() const
     std::map<std::string, int> violationsMapping;
     for (const auto& violationSet : _resultCollector.getCollection())
     {
-        if (violationSet->numberOfViolations() > 0)
+        for (const auto& violation : violationSet->getViolations())
         {
-            std::string filePath = violationSet->getViolations()[0].path;
-            violationsMapping[filePath] += violationSet->numberOfViolations();
+            violationsMapping[violation.path]++;
         }
     }
     return violationsMapping.size();
-- 
2.43.0


From 06253aa602d7364892183408bc91ff36eb15bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 06/37] fix: report a failed write of the report output

---
 oclint-driver/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oclint-driver/main.cpp b/oclint-driver/main.cpp
index 0810174..bb7c73a 100644
--- a/oclint-driver/main.cpp
+++ b/oclint-driver/main.cpp
@@ -70,6 +70,14 @@ void disposeOutStream(ostream* out)
         ofstream *fout = (ofstream *)out;
         fout->close();
     }
+    else if (out)
+    {
+        out->flush();
+    }
+    if (out && out->fail())
+    {
+        throw oclint::GenericException("cannot write report output");
+    }
 }
 
 void listRules()
-- 
2.43.0


From e1f8ec7a67c72b95e4933645206d5fda07cfea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 07/37] fix: stop with an error when a reporter library has no
 create function

---
 oclint-driver/reporters_dlfcn_port.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oclint-driver/reporters_dlfcn_port.cpp b/oclint-driver/reporters_dlfcn_port.cpp
index c02d9af..b2ee530 100644
--- a/oclint-driver/reporters_dlfcn_port.cpp
+++ b/oclint-driver/reporters_dlfcn_port.cpp
@@ -33,6 +33,11 @@ void loadReporter()
             }
             oclint::Reporter* (*createMethodPointer)();
             createMethodPointer = (oclint::Reporter* (*)())dlsym(reporterHandle, "create");
+            if (createMethodPointer == nullptr)
+            {
+                closedir(pDir);
+                throw oclint::GenericException("cannot find reporter in dynamic library: " + reporterPath);
+            }
             oclint::Reporter* reporter = (oclint::Reporter*)createMethodPointer();
             if (reporter->name() == oclint::option::reportType())
             {
-- 
2.43.0


From 09bc489c1cbd03dbe09d4c366c8ac2222172db5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 08/37] fix: stop with an error when a rule directory cannot be
 listed

---
 oclint-driver/rules_dlfcn_port.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/rules_dlfcn_port.cpp b/oclint-driver/rules_dlfcn_port.cpp
index c4fc009..125bfcf 100644
--- a/oclint-driver/rules_dlfcn_port.cpp
+++ b/oclint-driver/rules_dlfcn_port.cpp
@@ -1,5 +1,6 @@
 #include <dirent.h>
 #include <dlfcn.h>
+#include <cerrno>
 #include <iostream>
 
 #include "oclint/GenericException.h"
@@ -12,7 +13,7 @@ void dynamicLoadRules(std::string ruleDirPath)
     if (pDir != nullptr)
     {
         struct dirent *dirp;
-        while ((dirp = readdir(pDir)))
+        while ((errno = 0, dirp = readdir(pDir)))
         {
             if (dirp->d_name[0] == '.')
             {
@@ -26,6 +27,15 @@ void dynamicLoadRules(std::string ruleDirPath)
                 throw oclint::GenericException("cannot open dynamic library: " + rulePath);
             }
         }
+        int listingError = errno;
         closedir(pDir);
+        if (listingError != 0)
+        {
+            throw oclint::GenericException("cannot list rule directory: " + ruleDirPath);
+        }
+    }
+    else if (errno != ENOENT)
+    {
+        throw oclint::GenericException("cannot open rule directory: " + ruleDirPath);
     }
 }
-- 
2.43.0


From b5eb0f495c733e3fd1a1d0b72ded0f2e22f4af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 09/37] fix: keep the working directory however long its path
 is

---
 oclint-driver/lib/Options.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 8622136..f8918f0 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -12,6 +12,7 @@
 #include <clang/Tooling/CommonOptionsParser.h>
 
 #include "oclint/ConfigFile.h"
+#include "oclint/GenericException.h"
 #include "oclint/RuleConfiguration.h"
 
 using namespace oclint;
@@ -134,7 +135,9 @@ static std::vector<std::string> configFilePaths()
     if (oclint::option::homePath().length() > 0) {
         paths.push_back(oclint::option::homePath() + "/.oclint");
     }
-    paths.push_back(oclint::option::workingPath() + "/.oclint");
+    if (oclint::option::workingPath().length() > 0) {
+        paths.push_back(oclint::option::workingPath() + "/.oclint");
+    }
     return paths;
 }
 
@@ -180,10 +183,10 @@ static void processConfigFiles()
 
 static void preserveWorkingPath()
 {
-    char path[300];
-    if (getcwd(path, 300))
+    llvm::SmallString<300> path;
+    if (!llvm::sys::fs::current_path(path))
     {
-        absoluteWorkingPath = std::string(path);
+        absoluteWorkingPath = path.str().str();
     }
 }
 
@@ -277,6 +280,10 @@ bool oclint::option::hasOutputPath()
 
 std::string oclint::option::outputPath()
 {
+    if (argOutput.at(0) != '/' && workingPath().empty())
+    {
+        throw oclint::GenericException("cannot resolve relative output path " + argOutput);
+    }
     return argOutput.at(0) == '/' ? argOutput : workingPath() + "/" + argOutput;
 }
 
-- 
2.43.0


From a1f129f6883e6946eb44e942c609a19343ddb823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 10/37] fix: keep the text of a configuration file as long as
 its settings refer to it

---
 oclint-driver/include/oclint/ConfigFile.h | 4 ++++
 oclint-driver/lib/ConfigFile.cpp          | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/oclint-driver/include/oclint/ConfigFile.h b/oclint-driver/include/oclint/ConfigFile.h
index 101a12a..9ee680e 100644
--- a/oclint-driver/include/oclint/ConfigFile.h
+++ b/oclint-driver/include/oclint/ConfigFile.h
@@ -1,6 +1,7 @@
 #ifndef OCLINT_CONFIGFILE_H
 #define OCLINT_CONFIGFILE_H
 
+#include <memory>
 #include <vector>
 
 #include <llvm/Support/YAMLTraits.h>
@@ -30,6 +31,9 @@ class ConfigFile
 {
 private:
     std::string _path;
+    // own the text the string references below point into
+    std::unique_ptr<llvm::MemoryBuffer> _buffer;
+    std::unique_ptr<llvm::yaml::Input> _input;
     std::vector<llvm::StringRef> _rules;
     std::vector<llvm::StringRef> _disableRules;
     std::vector<llvm::StringRef> _rulePaths;
diff --git a/oclint-driver/lib/ConfigFile.cpp b/oclint-driver/lib/ConfigFile.cpp
index 1e002ec..4dc8322 100644
--- a/oclint-driver/lib/ConfigFile.cpp
+++ b/oclint-driver/lib/ConfigFile.cpp
@@ -86,7 +86,8 @@ oclint::option::ConfigFile::ConfigFile(const std::string &path)
         llvm::MemoryBuffer::getFile(path);
     if (buffer)
     {
-        const llvm::StringRef &content = buffer.get()->getBuffer();
+        _buffer = std::move(buffer.get());
+        const llvm::StringRef &content = _buffer->getBuffer();
 
         const std::string whitespace(" \t\f\v\n\r");
         if (content.str().find_last_not_of(whitespace) == std::string::npos) {
@@ -97,8 +98,8 @@ oclint::option::ConfigFile::ConfigFile(const std::string &path)
             return;
         }
 
-        llvm::yaml::Input yin(content);
-        yin >> *this;
+        _input = std::make_unique<llvm::yaml::Input>(content);
+        *_input >> *this;
     }
     else
     {
-- 
2.43.0


From 1d87d11efca6683f365a600712ab2b878a1d4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 11/37] fix: print the month, not the months since January, in
 the XML report

---
 oclint-reporters/reporters/XMLReporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 3d2a20f..c773d38 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -54,7 +54,7 @@ public:
             28,
             "%04i-%02i-%02iT%02i:%02i:%02iZ",
             tmNow->tm_year + 1900,
-            tmNow->tm_mon,
+            tmNow->tm_mon + 1,
             tmNow->tm_mday,
             tmNow->tm_hour,
             tmNow->tm_min,
-- 
2.43.0


From e84ab9dfdbb9683d59fd3b7b11d160ab32c7a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 12/37] fix: do not truncate the timestamp of the JSON report
 to 32 bits

---
 oclint-reporters/reporters/JSONReporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/JSONReporter.cpp b/oclint-reporters/reporters/JSONReporter.cpp
index 40c4964..3f4e322 100644
--- a/oclint-reporters/reporters/JSONReporter.cpp
+++ b/oclint-reporters/reporters/JSONReporter.cpp
@@ -120,7 +120,7 @@ public:
         return output;
     }
 
-    void writeKeyValue(std::ostream &out, std::string key, int value, bool last = false)
+    void writeKeyValue(std::ostream &out, std::string key, long long value, bool last = false)
     {
         writeKey(out, key);
         out << value;
-- 
2.43.0


From c178c72cc261bcf98344b7495d9b2c677ef1f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 13/37] fix: drop the syntax-only flag, not the last argument,
 for the static analyzer

---
 oclint-driver/lib/Driver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index d05445c..4dd5034 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -190,10 +190,14 @@ static clang::CompilerInvocation *newCompilerInvocation(
         argv.push_back(commandLine[0].c_str());
         argv.push_back("--analyze");
         start = 1;
-        end -= 1;
     }
     for (int cmdIndex = start; cmdIndex != end; cmdIndex++)
     {
+        // the clang static analyzer runs instead of the syntax check
+        if (runClangChecker && commandLine[cmdIndex] == "-fsyntax-only")
+        {
+            continue;
+        }
         if (commandLine[cmdIndex] != "-gmodules")
         {
             argv.push_back(commandLine[cmdIndex].c_str());
-- 
2.43.0


From 4a17a02ee34a09293c51e87a3334f95f31376903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 14/37] fix: define __OCLINT__ in compile commands with a --
 separator

---
 oclint-driver/lib/Driver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 4dd5034..528c1ef 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -48,6 +48,7 @@
 
 #include <unistd.h>
 
+#include <algorithm>
 #include <sstream>
 
 #include <llvm/ADT/IntrusiveRefCntPtr.h>
@@ -203,7 +204,8 @@ static clang::CompilerInvocation *newCompilerInvocation(
             argv.push_back(commandLine[cmdIndex].c_str());
         }
     }
-    argv.push_back("-D__OCLINT__");
+    // everything after "--" is taken as a file name
+    argv.insert(std::find(argv.begin(), argv.end(), llvm::StringRef("--")), "-D__OCLINT__");
 
     // create diagnostic engine
     auto diagOpts = std::make_unique<clang::DiagnosticOptions>();
-- 
2.43.0


From 9001afcd7827856f71274cc7a2d5cdf415239d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 15/37] fix: leave the dependency and diagnostics files of the
 build alone

---
 oclint-driver/lib/Driver.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 528c1ef..7720efb 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -96,6 +96,11 @@ static clang::CompilerInvocation *newInvocation(clang::DiagnosticsEngine *diagno
     auto invocation = new clang::CompilerInvocation;
     clang::CompilerInvocation::CreateFromArgs(*invocation, argStringList, *diagnostics);
     invocation->getFrontendOpts().DisableFree = false;
+    // the files that the build writes for this command are not ours to write
+    invocation->getFrontendOpts().OutputFile.clear();
+    invocation->getDependencyOutputOpts() = clang::DependencyOutputOptions();
+    invocation->getDiagnosticOpts().DiagnosticLogFile.clear();
+    invocation->getDiagnosticOpts().DiagnosticSerializationFile.clear();
     return invocation;
 }
 
@@ -199,6 +204,15 @@ static clang::CompilerInvocation *newCompilerInvocation(
         {
             continue;
         }
+        // the driver would write the compilation database entry by itself
+        if (llvm::StringRef(commandLine[cmdIndex]).starts_with("-MJ"))
+        {
+            if (commandLine[cmdIndex] == "-MJ" && cmdIndex + 1 != end)
+            {
+                cmdIndex++;
+            }
+            continue;
+        }
         if (commandLine[cmdIndex] != "-gmodules")
         {
             argv.push_back(commandLine[cmdIndex].c_str());
-- 
2.43.0


From 05b76b6b00678b2807d1f794cb0486c82f84640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 16/37] fix: do not write static analyzer plist files into the
 compile directory

---
 oclint-driver/lib/Driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 7720efb..a2fdaae 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -101,6 +101,8 @@ static clang::CompilerInvocation *newInvocation(clang::DiagnosticsEngine *diagno
     invocation->getDependencyOutputOpts() = clang::DependencyOutputOptions();
     invocation->getDiagnosticOpts().DiagnosticLogFile.clear();
     invocation->getDiagnosticOpts().DiagnosticSerializationFile.clear();
+    // report static analyzer findings as diagnostics only, do not write a plist file
+    invocation->getAnalyzerOpts().AnalysisDiagOpt = clang::PD_TEXT_MINIMAL;
     return invocation;
 }
 
-- 
2.43.0


From 6225cbbde99fb75dd549d7ebace45c0e2e8811f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 17/37] fix: run the static analyzer in its own pass only

---
 oclint-driver/lib/CompilerInstance.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oclint-driver/lib/CompilerInstance.cpp b/oclint-driver/lib/CompilerInstance.cpp
index 3c34b01..075f45a 100644
--- a/oclint-driver/lib/CompilerInstance.cpp
+++ b/oclint-driver/lib/CompilerInstance.cpp
@@ -54,8 +54,10 @@
 
 using namespace oclint;
 
-static clang::FrontendAction *getFrontendAction() {
-    if (option::enableClangChecker()) {
+static clang::FrontendAction *getFrontendAction(const clang::FrontendOptions &frontendOptions) {
+    // only the pass for the static analyzer, other passes just parse the source
+    if (option::enableClangChecker() &&
+        frontendOptions.ProgramAction == clang::frontend::RunAnalysis) {
         return new clang::ento::AnalysisAction();
     }
     return new clang::SyntaxOnlyAction();
@@ -94,7 +96,7 @@ void CompilerInstance::start() {
             getSourceManager().clearIDTables();
         }
 
-        clang::FrontendAction *frontendAction = getFrontendAction();
+        clang::FrontendAction *frontendAction = getFrontendAction(getFrontendOpts());
         if(frontendAction->BeginSourceFile(*this, input)) {
             static_cast<void>(frontendAction->Execute());
             _actions.emplace_back(frontendAction);
-- 
2.43.0


From 83948a49f90afe2545a7373ea867caa7e54253cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 18/37] fix: report only warnings of the static analyzer pass
 as its findings

---
 oclint-driver/lib/DiagnosticDispatcher.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/oclint-driver/lib/DiagnosticDispatcher.cpp b/oclint-driver/lib/DiagnosticDispatcher.cpp
index 884f901..eaf3277 100644
--- a/oclint-driver/lib/DiagnosticDispatcher.cpp
+++ b/oclint-driver/lib/DiagnosticDispatcher.cpp
@@ -76,20 +76,20 @@ void DiagnosticDispatcher::HandleDiagnostic(clang::DiagnosticsEngine::Level diag
         0, 0, diagnosticMessage.str().str());
 
     ResultCollector *results = ResultCollector::getInstance();
-    if (_isCheckerCustomer)
+    if (diagnosticLevel == clang::DiagnosticsEngine::Warning)
     {
-        results->addCheckerBug(violation);
-    }
-    else
-    {
-        if (diagnosticLevel == clang::DiagnosticsEngine::Warning)
+        if (_isCheckerCustomer)
         {
-            results->addWarning(violation);
+            results->addCheckerBug(violation);
         }
-        if (diagnosticLevel == clang::DiagnosticsEngine::Error ||
-            diagnosticLevel == clang::DiagnosticsEngine::Fatal)
+        else
         {
-            results->addError(violation);
+            results->addWarning(violation);
         }
     }
+    if (diagnosticLevel == clang::DiagnosticsEngine::Error ||
+        diagnosticLevel == clang::DiagnosticsEngine::Fatal)
+    {
+        results->addError(violation);
+    }
 }
-- 
2.43.0


From 60363d556e7d3108e15e77f433eb5bc8b0774639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 19/37] fix: suppress by the lines and annotations of the
 translation unit being analyzed

---
 .../include/oclint/helper/SuppressHelper.h    |  3 +
 oclint-rules/lib/AbstractASTRuleBase.cpp      |  5 +-
 .../lib/AbstractSourceCodeReaderRule.cpp      |  2 +
 oclint-rules/lib/helper/SuppressHelper.cpp    | 99 +++++++++++--------
 4 files changed, 65 insertions(+), 44 deletions(-)

diff --git a/oclint-rules/include/oclint/helper/SuppressHelper.h b/oclint-rules/include/oclint/helper/SuppressHelper.h
index 192a131..c2f6415 100644
--- a/oclint-rules/include/oclint/helper/SuppressHelper.h
+++ b/oclint-rules/include/oclint/helper/SuppressHelper.h
@@ -10,4 +10,7 @@ bool shouldSuppress(const clang::Stmt *stmt, clang::ASTContext &context, oclint:
 bool shouldSuppress(int beginLine, clang::ASTContext& context,
                     oclint::RuleBase* rule = nullptr);
 
+/* ranges are remembered for one rule on one translation unit, to be called before the next one */
+void forgetSuppressedRanges();
+
 #endif
diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index 00fa4f9..b332ed6 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -15,7 +15,10 @@ void AbstractASTRuleBase::addViolation(clang::SourceLocation startLocation,
     clang::SourceLocation startFileLoc = sourceManager->getFileLoc(startLocation);
     clang::SourceLocation endFileLoc = sourceManager->getFileLoc(endLocation);
     int beginLine = sourceManager->getPresumedLineNumber(startFileLoc);
-    if (!shouldSuppress(beginLine, *_carrier->getASTContext()))
+    // comments are matched by the actual line in the main file, not the one #line tells
+    bool inMainFile = sourceManager->getFileID(startFileLoc) == sourceManager->getMainFileID();
+    int actualLine = sourceManager->getSpellingLineNumber(startFileLoc);
+    if (!inMainFile || !shouldSuppress(actualLine, *_carrier->getASTContext()))
     {
         llvm::StringRef filename = sourceManager->getFilename(startFileLoc);
         _carrier->addViolation(filename.str(),
diff --git a/oclint-rules/lib/AbstractSourceCodeReaderRule.cpp b/oclint-rules/lib/AbstractSourceCodeReaderRule.cpp
index ed36ee5..edafb1d 100644
--- a/oclint-rules/lib/AbstractSourceCodeReaderRule.cpp
+++ b/oclint-rules/lib/AbstractSourceCodeReaderRule.cpp
@@ -14,6 +14,8 @@ AbstractSourceCodeReaderRule::~AbstractSourceCodeReaderRule() {}
 /*virtual*/
 void AbstractSourceCodeReaderRule::apply()
 {
+    forgetSuppressedRanges();
+
     clang::SourceManager *sourceManager = &_carrier->getSourceManager();
 
     clang::FileID mainFileID = sourceManager->getMainFileID();
diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 62deeb1..d9a66cd 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -1,5 +1,6 @@
 #include "oclint/helper/SuppressHelper.h"
 
+#include <algorithm>
 #include <regex>
 #include <set>
 #include <unordered_map>
@@ -98,8 +99,8 @@ public:
         {
             clang::SourceLocation startLocation = decl->getBeginLoc();
             clang::SourceLocation endLocation = decl->getEndLoc();
-            unsigned startLineNumber = _sourceManager->getPresumedLineNumber(startLocation);
-            unsigned endLineNumber = _sourceManager->getPresumedLineNumber(endLocation);
+            unsigned startLineNumber = _sourceManager->getExpansionLineNumber(startLocation);
+            unsigned endLineNumber = _sourceManager->getExpansionLineNumber(endLocation);
             _range.insert(std::make_pair(startLineNumber, endLineNumber));
         }
 
@@ -113,57 +114,64 @@ std::string getMainFilePath(clang::ASTContext &context)
     return ruleCarrier.getMainFilePath();
 }
 
-typedef std::unordered_map<std::string, std::set<int>> LineMap;
-static LineMap singleLineMapping;
-
-
-
-bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
+static bool hasSuppressComment(const std::string &text)
 {
-    std::string filePath = getMainFilePath(context);
-    auto commentLinesIt = singleLineMapping.find(filePath);
-    std::set<int> commentLines;
-    if (commentLinesIt == singleLineMapping.end())
-    {
-        auto mainFileID = context.getSourceManager().getMainFileID();
-        auto commentList = context.Comments;
-        const auto commentMap = commentList.getCommentsInFile(mainFileID);
-        if (commentMap != nullptr)
-        {
-            for (auto c : *commentMap)
-            {
-                auto comment = c.second;
-                if (comment == nullptr)
-                {
-                    continue;
-                }
 // g++ 4.8 on Ubuntu 14.04 LTS doesn't support regex yet,
 // so we will ship this once Ubuntu 16.04 releases
 #if defined(__APPLE__) || defined(__MACH__)
-                std::string commentString = comment->getRawText(context.getSourceManager()).str();
-                std::regex oclintRegex =
-                    std::regex("//! *OCLINT", std::regex::basic | std::regex::icase);
-                if (std::regex_search(commentString, oclintRegex))
+    std::regex oclintRegex = std::regex("//! *OCLINT", std::regex::basic | std::regex::icase);
+    return std::regex_search(text, oclintRegex);
 #else
-                if (std::string::npos !=
-                    comment->getRawText(context.getSourceManager()).find("//!OCLINT"))
+    return std::string::npos != text.find("//!OCLINT");
 #endif
-                {
-                    clang::SourceLocation startLocation = comment->getBeginLoc();
-                    int startLocationLine =
-                        context.getSourceManager().getPresumedLineNumber(startLocation);
-                    commentLines.insert(startLocationLine);
-                }
-            }
-        }
-        singleLineMapping[filePath] = commentLines;
+}
+
+bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
+{
+    const clang::SourceManager &sourceManager = context.getSourceManager();
+    auto mainFileID = sourceManager.getMainFileID();
+    const auto commentMap = context.Comments.getCommentsInFile(mainFileID);
+    if (beginLine <= 0 || commentMap == nullptr)
+    {
+        return false;
     }
-    else
+
+    clang::SourceLocation lineLocation = sourceManager.translateLineCol(mainFileID, beginLine, 1);
+    if (lineLocation.isInvalid())
     {
-        commentLines = commentLinesIt->second;
+        return false;
     }
+    unsigned lineBegin = sourceManager.getFileOffset(lineLocation);
+    if (sourceManager.getLineNumber(mainFileID, lineBegin) != static_cast<unsigned>(beginLine))
+    {
+        return false;
+    }
+    llvm::StringRef buffer = sourceManager.getBufferData(mainFileID);
+    unsigned lineEnd = std::min(buffer.find_first_of("\r\n", lineBegin), buffer.size());
 
-    return commentLines.find(beginLine) != commentLines.end();
+    // comments on adjacent lines are merged into one, so look at the part that is on this line
+    for (auto it = commentMap->lower_bound(lineEnd); it != commentMap->begin();)
+    {
+        --it;
+        clang::RawComment *comment = it->second;
+        if (comment == nullptr)
+        {
+            continue;
+        }
+        unsigned commentBegin = it->first;
+        unsigned commentEnd = commentBegin + comment->getRawText(sourceManager).size();
+        if (commentEnd <= lineBegin)
+        {
+            break;
+        }
+        unsigned partBegin = std::max(lineBegin, commentBegin);
+        unsigned partEnd = std::min(lineEnd, commentEnd);
+        if (hasSuppressComment(buffer.substr(partBegin, partEnd - partBegin).str()))
+        {
+            return true;
+        }
+    }
+    return false;
 }
 
 typedef std::unordered_map<std::string, RangeSet> RangeMap;
@@ -196,6 +204,11 @@ bool rangeBasedShouldSuppress(int beginLine, clang::ASTContext &context, oclint:
     return false;
 }
 
+void forgetSuppressedRanges()
+{
+    rangeMapping.clear();
+}
+
 bool shouldSuppress(int beginLine, clang::ASTContext &context, oclint::RuleBase *rule)
 {
     return lineBasedShouldSuppress(beginLine, context) ||
-- 
2.43.0


From 8716138f8c23daa6cc17c498034054b3183fded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 20/37] fix: take the file name of a diagnostic from the same
 place as its line

---
 oclint-driver/lib/DiagnosticDispatcher.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/oclint-driver/lib/DiagnosticDispatcher.cpp b/oclint-driver/lib/DiagnosticDispatcher.cpp
index eaf3277..804ba82 100644
--- a/oclint-driver/lib/DiagnosticDispatcher.cpp
+++ b/oclint-driver/lib/DiagnosticDispatcher.cpp
@@ -42,21 +42,14 @@ LocalSourceLocation populateSourceLocation(const clang::Diagnostic &diagnosticIn
     clang::SourceManager *sourceManager = &diagnosticInfo.getSourceManager();
     clang::SourceLocation location = diagnosticInfo.getLocation();
 
-    llvm::StringRef sourceFilename = sourceManager->getFilename(location);
-    // If we didn't match, and we have a macro location try to expand it
-    if (sourceFilename.empty() && location.isMacroID())
+    // for macro locations this is where the macro is expanded
+    clang::PresumedLoc presumedLocation = sourceManager->getPresumedLoc(location);
+    if (presumedLocation.isValid())
     {
-        clang::SourceLocation macroLocation = sourceManager->getExpansionLoc(location);
-        llvm::StringRef expansionFilename = sourceManager->getFilename(macroLocation);
-        sourceLoc.filename = expansionFilename.str();
+        sourceLoc.filename = presumedLocation.getFilename();
+        sourceLoc.line = presumedLocation.getLine();
+        sourceLoc.column = presumedLocation.getColumn();
     }
-    else
-    {
-        sourceLoc.filename = sourceFilename.str();
-    }
-
-    sourceLoc.line = sourceManager->getPresumedLineNumber(location);
-    sourceLoc.column = sourceManager->getPresumedColumnNumber(location);
 
     return sourceLoc;
 }
-- 
2.43.0


From 2c1d05b695472ede060aafdfe26779785608d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 21/37] fix: apply the rules to C code of standards before C99

---
 oclint-rules/lib/AbstractASTRuleBase.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index b332ed6..0190705 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -80,11 +80,7 @@ bool AbstractASTRuleBase::isLanguageSupported() const
     {
         return supportsCXX();
     }
-    if (langOpts.C99)
-    {
-        return supportsC();
-    }
-    return false;
+    return supportsC();
 }
 
 unsigned int AbstractASTRuleBase::supportedCUDAFunctionAttrs() const
-- 
2.43.0


From e1fc920b0becbeb8bc815cd2adb23cff25147c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 22/37] fix: report a source path that cannot be resolved
 instead of crashing

---
 oclint-driver/lib/Driver.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index a2fdaae..4b4170d 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -54,6 +54,7 @@
 #include <llvm/ADT/IntrusiveRefCntPtr.h>
 #include <llvm/ADT/StringRef.h>
 #include <llvm/Option/ArgList.h>
+#include <llvm/Support/Error.h>
 #include <llvm/Support/FileSystem.h>
 #include <llvm/Support/VirtualFileSystem.h>
 #include <llvm/TargetParser/Host.h>
@@ -106,6 +107,18 @@ static clang::CompilerInvocation *newInvocation(clang::DiagnosticsEngine *diagno
     return invocation;
 }
 
+static std::string absoluteSourcePath(const std::string &sourcePath)
+{
+    auto filePath =
+        clang::tooling::getAbsolutePath(*llvm::vfs::getRealFileSystem(), sourcePath);
+    if (!filePath)
+    {
+        throw oclint::GenericException("cannot resolve source path " + sourcePath + ": " +
+            llvm::toString(filePath.takeError()));
+    }
+    return *filePath;
+}
+
 static void constructCompileCommands(
     CompileCommandPairs &compileCommands,
     const clang::tooling::CompilationDatabase &compilationDatabase,
@@ -113,7 +126,7 @@ static void constructCompileCommands(
 {
     for (const auto &sourcePath : sourcePaths)
     {
-        std::string filePath(clang::tooling::getAbsolutePath(sourcePath));
+        std::string filePath = absoluteSourcePath(sourcePath);
         std::vector<clang::tooling::CompileCommand> compileCmdsForFile =
             compilationDatabase.getCompileCommands(filePath);
         if (compileCmdsForFile.empty())
-- 
2.43.0


From 59eadf1dcd0acc1bc46c7faf544d0a215752a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 23/37] fix: honour suppression comments in the file the
 violation is located in

Comments were only looked up in the main file, so //!OCLINT on a line of a
file included in a function body had no effect.
---
 .../include/oclint/helper/SuppressHelper.h    |  1 +
 oclint-rules/lib/AbstractASTRuleBase.cpp      |  6 ++----
 oclint-rules/lib/helper/SuppressHelper.cpp    | 21 ++++++++++++-------
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/oclint-rules/include/oclint/helper/SuppressHelper.h b/oclint-rules/include/oclint/helper/SuppressHelper.h
index c2f6415..db7373a 100644
--- a/oclint-rules/include/oclint/helper/SuppressHelper.h
+++ b/oclint-rules/include/oclint/helper/SuppressHelper.h
@@ -7,6 +7,7 @@
 
 bool shouldSuppress(const clang::Decl *decl, clang::ASTContext &context, oclint::RuleBase *rule);
 bool shouldSuppress(const clang::Stmt *stmt, clang::ASTContext &context, oclint::RuleBase *rule);
+bool shouldSuppress(clang::SourceLocation location, clang::ASTContext &context);
 bool shouldSuppress(int beginLine, clang::ASTContext& context,
                     oclint::RuleBase* rule = nullptr);
 
diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index 0190705..0636afc 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -15,10 +15,8 @@ void AbstractASTRuleBase::addViolation(clang::SourceLocation startLocation,
     clang::SourceLocation startFileLoc = sourceManager->getFileLoc(startLocation);
     clang::SourceLocation endFileLoc = sourceManager->getFileLoc(endLocation);
     int beginLine = sourceManager->getPresumedLineNumber(startFileLoc);
-    // comments are matched by the actual line in the main file, not the one #line tells
-    bool inMainFile = sourceManager->getFileID(startFileLoc) == sourceManager->getMainFileID();
-    int actualLine = sourceManager->getSpellingLineNumber(startFileLoc);
-    if (!inMainFile || !shouldSuppress(actualLine, *_carrier->getASTContext()))
+    // comments are matched by the actual line in the actual file, not the one #line tells
+    if (!shouldSuppress(startFileLoc, *_carrier->getASTContext()))
     {
         llvm::StringRef filename = sourceManager->getFilename(startFileLoc);
         _carrier->addViolation(filename.str(),
diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index d9a66cd..ff14fbd 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -126,27 +126,26 @@ static bool hasSuppressComment(const std::string &text)
 #endif
 }
 
-bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
+bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context, clang::FileID fileID)
 {
     const clang::SourceManager &sourceManager = context.getSourceManager();
-    auto mainFileID = sourceManager.getMainFileID();
-    const auto commentMap = context.Comments.getCommentsInFile(mainFileID);
+    const auto commentMap = context.Comments.getCommentsInFile(fileID);
     if (beginLine <= 0 || commentMap == nullptr)
     {
         return false;
     }
 
-    clang::SourceLocation lineLocation = sourceManager.translateLineCol(mainFileID, beginLine, 1);
+    clang::SourceLocation lineLocation = sourceManager.translateLineCol(fileID, beginLine, 1);
     if (lineLocation.isInvalid())
     {
         return false;
     }
     unsigned lineBegin = sourceManager.getFileOffset(lineLocation);
-    if (sourceManager.getLineNumber(mainFileID, lineBegin) != static_cast<unsigned>(beginLine))
+    if (sourceManager.getLineNumber(fileID, lineBegin) != static_cast<unsigned>(beginLine))
     {
         return false;
     }
-    llvm::StringRef buffer = sourceManager.getBufferData(mainFileID);
+    llvm::StringRef buffer = sourceManager.getBufferData(fileID);
     unsigned lineEnd = std::min(buffer.find_first_of("\r\n", lineBegin), buffer.size());
 
     // comments on adjacent lines are merged into one, so look at the part that is on this line
@@ -209,8 +208,16 @@ void forgetSuppressedRanges()
     rangeMapping.clear();
 }
 
+bool shouldSuppress(clang::SourceLocation location, clang::ASTContext &context)
+{
+    const clang::SourceManager &sourceManager = context.getSourceManager();
+    return location.isValid() &&
+        lineBasedShouldSuppress(sourceManager.getSpellingLineNumber(location), context,
+            sourceManager.getFileID(location));
+}
+
 bool shouldSuppress(int beginLine, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    return lineBasedShouldSuppress(beginLine, context) ||
+    return lineBasedShouldSuppress(beginLine, context, context.getSourceManager().getMainFileID()) ||
         (rule && rangeBasedShouldSuppress(beginLine, context, rule));
 }
-- 
2.43.0


From a7284459ffdf8cad3adb3bd5d6e969baeba64be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 24/37] fix: apply annotations on functions to their parameters

The parent of a parameter is the type location of its function, where the
search for an annotated parent ended, so oclint:suppress on a function did
not hide violations located at its parameters.
---
 oclint-rules/lib/helper/SuppressHelper.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index ff14fbd..a95b4fb 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -42,13 +42,9 @@ bool markedParentsAsSuppress(const T &node, clang::ASTContext &context, oclint::
         }
         return markedParentsAsSuppress(*aDecl, context, rule);
     }
-    const clang::Stmt *aStmt = dynTypedNode->get<clang::Stmt>();
-    if (aStmt)
-    {
-        return markedParentsAsSuppress(*aStmt, context, rule);
-    }
 
-    return false;
+    // statements, but also type locations, which parameters of functions are children of
+    return markedParentsAsSuppress(*dynTypedNode, context, rule);
 }
 
 bool shouldSuppress(const clang::Decl *decl, clang::ASTContext &context, oclint::RuleBase *rule)
-- 
2.43.0


From 58c91a9dc49d68086976b144017c597c35c5007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 25/37] fix: ignore annotations in included files when lines of
 the main file are checked

The lines of an annotated declaration in a file included in a function body
were taken for lines of the main file, and hid long lines there.
---
 oclint-rules/lib/helper/SuppressHelper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index a95b4fb..da873f3 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -95,6 +95,11 @@ public:
         {
             clang::SourceLocation startLocation = decl->getBeginLoc();
             clang::SourceLocation endLocation = decl->getEndLoc();
+            if (!_sourceManager->isWrittenInMainFile(
+                    _sourceManager->getExpansionLoc(startLocation)))
+            {
+                return true; // lines of an included file are no lines of the main file
+            }
             unsigned startLineNumber = _sourceManager->getExpansionLineNumber(startLocation);
             unsigned endLineNumber = _sourceManager->getExpansionLineNumber(endLocation);
             _range.insert(std::make_pair(startLineNumber, endLineNumber));
-- 
2.43.0


From 628b9d88145e92f4fecd8941ba7ba8dd034afa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:41 +0000
Subject: [PATCH 26/37] fix: do not analyze the missing body of a function
 whose parsing is delayed

---
 oclint-rules/rules/size/LongMethodRule.cpp      | 4 ++--
 oclint-rules/rules/size/NPathComplexityRule.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/oclint-rules/rules/size/LongMethodRule.cpp b/oclint-rules/rules/size/LongMethodRule.cpp
index a645e00..7843a6e 100644
--- a/oclint-rules/rules/size/LongMethodRule.cpp
+++ b/oclint-rules/rules/size/LongMethodRule.cpp
@@ -13,10 +13,10 @@ class LongMethodRule : public AbstractASTVisitorRule<LongMethodRule>
 private:
     void applyDecl(Decl *decl)
     {
-        if (decl->hasBody() &&
+        Stmt *stmt = decl->hasBody() ? decl->getBody() : nullptr;
+        if (stmt &&
             !isCppMethodDeclLocatedInCppRecordDecl(dyn_cast<CXXMethodDecl>(decl)))
         {
-            Stmt *stmt = decl->getBody();
             int length = getLineCount(stmt->getSourceRange(), _carrier->getSourceManager());
             int threshold = RuleConfiguration::intForKey("LONG_METHOD", 50);
             if (length > threshold)
diff --git a/oclint-rules/rules/size/NPathComplexityRule.cpp b/oclint-rules/rules/size/NPathComplexityRule.cpp
index 8bf664a..42fca9a 100644
--- a/oclint-rules/rules/size/NPathComplexityRule.cpp
+++ b/oclint-rules/rules/size/NPathComplexityRule.cpp
@@ -21,7 +21,7 @@ private:
     {
         if (decl->hasBody())
         {
-            CompoundStmt *bodyStmt = dyn_cast<CompoundStmt>(decl->getBody());
+            CompoundStmt *bodyStmt = dyn_cast_or_null<CompoundStmt>(decl->getBody());
             if (bodyStmt)
             {
                 int npath = getNPathComplexity(bodyStmt);
-- 
2.43.0


From 10a675bb76ff2b133b5d82ddb3ed351f67b2a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 27/37] fix: forget the loop variables of previous translation
 units in short variable name

---
 oclint-rules/rules/naming/ShortVariableNameRule.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oclint-rules/rules/naming/ShortVariableNameRule.cpp b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
index cb85f4a..6eae863 100644
--- a/oclint-rules/rules/naming/ShortVariableNameRule.cpp
+++ b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
@@ -99,6 +99,12 @@ public:
     }
 #endif
 
+    virtual void setUp() override
+    {
+        // declarations of a previous translation unit are gone
+        clearVarDeclsStack();
+    }
+
     bool VisitVarDecl(VarDecl *varDecl)
     {
         std::string varName = varDecl->getNameAsString();
-- 
2.43.0


From 956a12b96ed68849bfa6d66c4fdb0ff3c54100ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:34 +0000
Subject: [PATCH 28/37] fix: abbreviate long variable names under negative
 thresholds

---
 oclint-rules/rules/naming/LongVariableNameRule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/naming/LongVariableNameRule.cpp b/oclint-rules/rules/naming/LongVariableNameRule.cpp
index 06a24d4..98ad648 100644
--- a/oclint-rules/rules/naming/LongVariableNameRule.cpp
+++ b/oclint-rules/rules/naming/LongVariableNameRule.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <string>
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleConfiguration.h"
@@ -65,9 +66,9 @@ public:
         int threshold = RuleConfiguration::intForKey("LONG_VARIABLE_NAME", 20);
         if (nameLength > threshold)
         {
-            if (nameLength > threshold + 10)
+            if (nameLength > std::max(threshold, 0) + 10)
             {
-                varName = varName.substr(0, threshold + 3) + "..." +
+                varName = varName.substr(0, std::max(threshold, 0) + 3) + "..." +
                     varName.substr(varName.length() - 3, varName.length());
             }
             string description = "Length of variable name `" + varName +
-- 
2.43.0


From 8a723f988d461f0c07a1abb259b8b8f5c0a55ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 29/37] fix: name the protocol of a protected method that no
 class declares

---
 .../rules/cocoa/ObjCVerifyProtectedMethodRule.cpp         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
index a042ecc..0a6a79d 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
@@ -58,11 +58,15 @@ public:
             checker.TraverseDecl(decl);
             const auto violations = checker.getViolations();
             for(auto expr : violations) {
-                const auto sourceClass = expr->getMethodDecl()->getClassInterface();
+                const auto method = expr->getMethodDecl();
+                const ObjCContainerDecl *source = method->getClassInterface();
+                if(!source) { // declared in a protocol
+                    source = cast<ObjCContainerDecl>(method->getDeclContext());
+                }
 
                 string description = "calling protected method " +
                     expr->getSelector().getAsString() +
-                    " from outside " + sourceClass->getNameAsString() + " and its subclasses";
+                    " from outside " + source->getNameAsString() + " and its subclasses";
                 addViolation(expr, this, description);
             }
         }
-- 
2.43.0


From d2bec1998648d281a64c02e22e1a03ea67f8435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 30/37] fix: pass over the missing condition of if consteval

---
 oclint-rules/rules/basic/ConstantIfExpressionRule.cpp          | 3 ++-
 .../rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
index a012e00..7f4ef38 100644
--- a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
+++ b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
@@ -60,7 +60,8 @@ public:
         Expr *conditionExpr = ifStmt->getCond();
 
         bool evaluatedResult;
-        if (conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
+        if (conditionExpr && // "if consteval" has no condition
+            conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
         }
diff --git a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
index 8734f1a..ec7e112 100644
--- a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
+++ b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
@@ -150,7 +150,7 @@ public:
 
     bool VisitIfStmt(IfStmt* ifStmt)
     {
-        if (ifStmt == nullptr || ifStmt->getElse() != nullptr)
+        if (ifStmt == nullptr || ifStmt->getCond() == nullptr || ifStmt->getElse() != nullptr)
         {
             return true;
         }
-- 
2.43.0


From 852de26c6a2cf905a4c9a30291a26747d8f02c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 31/37] fix: take the file name of a violation from the same
 place as its line

---
 oclint-rules/lib/AbstractASTRuleBase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index 0636afc..82b2478 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -18,8 +18,9 @@ void AbstractASTRuleBase::addViolation(clang::SourceLocation startLocation,
     // comments are matched by the actual line in the actual file, not the one #line tells
     if (!shouldSuppress(startFileLoc, *_carrier->getASTContext()))
     {
-        llvm::StringRef filename = sourceManager->getFilename(startFileLoc);
-        _carrier->addViolation(filename.str(),
+        // the same place as the line: the file that a #line directive names, if there is one
+        clang::PresumedLoc startPlace = sourceManager->getPresumedLoc(startFileLoc);
+        _carrier->addViolation(startPlace.isValid() ? startPlace.getFilename() : "",
             beginLine,
             sourceManager->getPresumedColumnNumber(startFileLoc),
             sourceManager->getPresumedLineNumber(endFileLoc),
-- 
2.43.0


From b3a01950932245526e131132404ba8a7e40476e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 32/37] fix: compare only constants of one kind and width in
 redundant conditional operator

---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index f726478..2e40e20 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -93,7 +93,8 @@ private:
     {
         IntegerLiteral *trueInteger = dyn_cast_or_null<IntegerLiteral>(trueExpr);
         IntegerLiteral *falseInteger = dyn_cast_or_null<IntegerLiteral>(falseExpr);
-        return trueInteger && falseInteger && trueInteger->getValue() == falseInteger->getValue();
+        return trueInteger && falseInteger && // the types may differ in templates
+            llvm::APInt::isSameValue(trueInteger->getValue(), falseInteger->getValue());
     }
 
     bool isFloatingLiteralEquals(Expr *trueExpr, Expr *falseExpr)
@@ -116,7 +117,7 @@ private:
     {
         StringLiteral *trueStr = extractFromImplicitCastExpr<StringLiteral>(trueExpr);
         StringLiteral *falseStr = extractFromImplicitCastExpr<StringLiteral>(falseExpr);
-        return trueStr && falseStr && trueStr->getString() == falseStr->getString();
+        return trueStr && falseStr && trueStr->getBytes() == falseStr->getBytes();
     }
 
     bool isNotEquals(Expr *trueExpr, Expr *falseExpr)
-- 
2.43.0


From 0403f0b705e5f1aa509c384b52e8194ef0964f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 33/37] fix: do not evaluate conditions that depend on template
 parameters

---
 oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp | 3 ++-
 oclint-rules/rules/basic/ConstantIfExpressionRule.cpp        | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp b/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
index 862928f..0ca7b4f 100644
--- a/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
@@ -54,7 +54,8 @@ public:
         Expr *conditionExpr = conditionalOperator->getCond();
 
         bool evaluatedResult;
-        if (conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
+        if (!conditionExpr->isValueDependent() &&
+            conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
         }
diff --git a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
index 7f4ef38..bd2f473 100644
--- a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
+++ b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
@@ -61,6 +61,7 @@ public:
 
         bool evaluatedResult;
         if (conditionExpr && // "if consteval" has no condition
+            !conditionExpr->isValueDependent() &&
             conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
-- 
2.43.0


From ed6b732e648f695e6d9de969c6138b1cfa0f3e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 34/37] fix: release the compilers and invocations of units
 that fail to compile or pass the static analyzer

Without global analysis every unit is meant to be released before the next
one.  Units with compiler errors and all units of the static analyzer pass
kept their compiler, AST and file mappings until the end of the run.
---
 oclint-driver/lib/Driver.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 4b4170d..90fdf90 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -345,9 +345,9 @@ static void constructCompilers(std::vector<oclint::CompilerInstance *> &compiler
                 "please make sure the directory exists and you have permission to access!");
         }
 
-        clang::CompilerInvocation *compilerInvocation =
-            newCompilerInvocation(mainExecutable, adjustedCmdLine);
-        oclint::CompilerInstance *compiler = newCompilerInstance(compilerInvocation);
+        const std::unique_ptr<clang::CompilerInvocation> compilerInvocation(
+            newCompilerInvocation(mainExecutable, adjustedCmdLine));
+        oclint::CompilerInstance *compiler = newCompilerInstance(compilerInvocation.get());
 
         compiler->start();
         if (!compiler->getDiagnostics().hasErrorOccurred() && compiler->hasASTContext())
@@ -358,6 +358,8 @@ static void constructCompilers(std::vector<oclint::CompilerInstance *> &compiler
         else
         {
             LOG_VERBOSE(" - Failed");
+            compiler->end();
+            delete compiler;
         }
         LOG_VERBOSE_LINE("");
     }
@@ -380,9 +382,10 @@ static void invokeClangStaticAnalyzer(
         }
         std::vector<std::string> adjustedArguments =
             adjustArguments(compileCommand.second.CommandLine, compileCommand.first);
-        clang::CompilerInvocation *compilerInvocation =
-            newCompilerInvocation(mainExecutable, adjustedArguments, true);
-        oclint::CompilerInstance *compiler = newCompilerInstance(compilerInvocation, true);
+        const std::unique_ptr<clang::CompilerInvocation> compilerInvocation(
+            newCompilerInvocation(mainExecutable, adjustedArguments, true));
+        const std::unique_ptr<oclint::CompilerInstance> compiler(
+            newCompilerInstance(compilerInvocation.get(), true));
 
         compiler->start();
         if (!compiler->getDiagnostics().hasErrorOccurred() && compiler->hasASTContext())
-- 
2.43.0


From e2cc751660e623698ecbfecabbcf2c2a50e39cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:17 +0000
Subject: [PATCH 35/37] fix: the documentation generator fails when it cannot
 write a file

Files that could not be opened, written or closed were ignored and the
generator reported success.
---
 oclint-driver/main_docgen.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/oclint-driver/main_docgen.cpp b/oclint-driver/main_docgen.cpp
index ad4e905..520a50a 100644
--- a/oclint-driver/main_docgen.cpp
+++ b/oclint-driver/main_docgen.cpp
@@ -50,7 +50,8 @@ void printErrorLine(const char *errorMessage)
 enum ExitCode
 {
     SUCCESS,
-    RULE_NOT_FOUND
+    RULE_NOT_FOUND,
+    ERROR_WHILE_WRITING
 };
 
 int prepare()
@@ -174,6 +175,17 @@ void writeFooter(ofstream& out)
     out << endl;
 }
 
+bool finish(ofstream& out, const string& path)
+{
+    out.close();
+    if (out.fail())
+    {
+        printErrorLine(("cannot write " + path).c_str());
+        return false;
+    }
+    return true;
+}
+
 int main(int argc, const char **argv)
 {
     llvm::cl::SetVersionPrinter(oclintDocGenVersionPrinter);
@@ -237,11 +249,17 @@ int main(int argc, const char **argv)
         }
 
         writeFooter(*categoryOut);
-        categoryOut->close();
+        if (!finish(*categoryOut, categoryPath))
+        {
+            return ERROR_WHILE_WRITING;
+        }
     }
 
     writeFooter(*indexOut);
-    indexOut->close();
+    if (!finish(*indexOut, indexPath))
+    {
+        return ERROR_WHILE_WRITING;
+    }
 
     return SUCCESS;
 }
-- 
2.43.0


From dbd99435290d51a1a4a5c279d8caf8da3167f21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:17 +0000
Subject: [PATCH 36/37] fix: the documentation generator reports option errors
 instead of aborting

---
 oclint-driver/main_docgen.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oclint-driver/main_docgen.cpp b/oclint-driver/main_docgen.cpp
index 520a50a..3a785b1 100644
--- a/oclint-driver/main_docgen.cpp
+++ b/oclint-driver/main_docgen.cpp
@@ -51,6 +51,7 @@ enum ExitCode
 {
     SUCCESS,
     RULE_NOT_FOUND,
+    COMMON_OPTIONS_PARSER_ERRORS,
     ERROR_WHILE_WRITING
 };
 
@@ -190,6 +191,11 @@ int main(int argc, const char **argv)
 {
     llvm::cl::SetVersionPrinter(oclintDocGenVersionPrinter);
     auto expectedParser = CommonOptionsParser::create(argc, argv, OCLintOptionCategory);
+    if (!expectedParser)
+    {
+        llvm::errs() << expectedParser.takeError();
+        return COMMON_OPTIONS_PARSER_ERRORS;
+    }
     CommonOptionsParser &optionsParser = expectedParser.get();
     oclint::option::process(argv[0]);
 
-- 
2.43.0


From 2dfa1ba87ad053c83728147f2293013ddcc99606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:50 +0000
Subject: [PATCH 37/37] fix: analyze the host's side of an offload compilation

clang's driver wraps an offload compilation in a single action now, so that an
assertion aborted every CUDA command; without assertions the first job, which is
a device's, was analyzed in place of the host's.
---
 oclint-driver/lib/Driver.cpp | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 90fdf90..89721aa 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -161,33 +161,30 @@ static const llvm::opt::ArgStringList *getCC1Arguments(clang::driver::Compilatio
             compilationJobsToString(jobList) + "\n");
     }
 
-    bool offloadCompilation = false;
-    if (jobSize > 1)
+    // an offload compilation has jobs for its devices besides the one for the host
+    auto isHostJob = [](const clang::driver::Command &job)
     {
-        auto actions = compilation->getActions();
-        for (auto action : actions)
-        {
-            if (llvm::isa<clang::driver::OffloadAction>(action))
-            {
-                assert(actions.size() > 1);
-                offloadCompilation = true;
-                break;
-            }
-        }
-    }
-    if (jobSize > 1 && !offloadCompilation)
+        return job.getSource().getOffloadingDeviceKind() == clang::driver::Action::OFK_None;
+    };
+    if (std::count_if(jobList.begin(), jobList.end(), isHostJob) > 1)
     {
         throw oclint::GenericException("compilation contains multiple jobs:\n" +
             compilationJobsToString(jobList) + "\n");
     }
 
-    if (!clang::isa<clang::driver::Command>(*jobList.begin()))
+    // analyze what is compiled for the host, unless there is code for devices only
+    auto job = std::find_if(jobList.begin(), jobList.end(), isHostJob);
+    if (job == jobList.end())
+    {
+        job = jobList.begin();
+    }
+    if (!clang::isa<clang::driver::Command>(*job))
     {
         throw oclint::GenericException("compilation job does not contain correct command:\n" +
             compilationJobsToString(jobList) + "\n");
     }
 
-    const clang::driver::Command &cmd = clang::cast<clang::driver::Command>(*jobList.begin());
+    const clang::driver::Command &cmd = clang::cast<clang::driver::Command>(*job);
     if (llvm::StringRef(cmd.getCreator().getName()) != "clang")
     {
         throw oclint::GenericException("expected a command for clang compiler");
-- 
2.43.0

