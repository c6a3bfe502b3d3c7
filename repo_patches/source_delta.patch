From 54084f9cfa6eb35c9b25ee2adb5c50b8133998be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:47 +0000
Subject: [PATCH 01/25] fix: end at end of input and accept any header fields

The main loop spun for ever once stdin was closed, processed a partly received
message as if it were complete, and lost its place in the input on a
Content-Type header or a body that starts with white space.
---
 nclangsrv/nclangsrv.cpp | 67 +++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/nclangsrv/nclangsrv.cpp b/nclangsrv/nclangsrv.cpp
index 1d25f86..25cd94b 100644
--- a/nclangsrv/nclangsrv.cpp
+++ b/nclangsrv/nclangsrv.cpp
@@ -109,55 +109,56 @@ int main(int argc, char* argv[])
 
         char        c;
         std::string str;
+        uint32_t    length{};
 
+        // header fields, each on its own line, up to an empty line
         while (std::cin.get(c))
         {
             using namespace std::chrono_literals;
             std::this_thread::sleep_for(1ms);
-            if (str.empty() and c != 'C')
+            if (c == '\r')
                 continue;
-            str += c;
-            if (str == "Content-Length: ")
+            if (c != '\n')
+            {
+                str += c;
+                continue;
+            }
+            if (str.empty())
                 break;
-        }
 
-        if (str.empty())
-            continue;
-
-        str.clear();
-
-        while (std::cin.get(c))
-        {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (c == '\r' or c == '\n')
-                break;
-            str += c;
+            const std::string contentLength("Content-Length: ");
+            if (str.compare(0, contentLength.size(), contentLength) == 0)
+            {
+                str.erase(0, contentLength.size());
+                length = std::atoi(str.c_str());
+                if (logger)
+                    LOGGER << __func__ << ": Content-Length: [" << str << "(" << str.size() << ")"
+                           << "], " << length << std::endl;
+            }
+            str.clear();
         }
 
-        uint32_t length = std::atoi(str.c_str());
-        if (logger)
-            LOGGER << __func__ << ": Content-Length: [" << str << "(" << str.size() << ")"
-                   << "], " << length << std::endl;
-        if (length == 0)
+        std::string buffer;
+        if (std::cin and length != 0)
         {
-            continue;
+            buffer.resize(length);
+            std::cin.read(&buffer[0], length);
         }
 
-        std::string buffer;
-        while (std::cin.get(c))
+        if (not std::cin)
         {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (c == '\r' or c == '\n')
-                continue;
-            buffer += c;
+            // end of input, the client is gone; a partly received message must not be processed
+            if (logger)
+            {
+                LOGGER << __func__ << ": end of input" << std::endl;
+                logger->flush();
+                logger->close();
+            }
             break;
         }
-        std::string tmp(length, '\0');
-        std::cin.read(&tmp[0], length - 1);
-        tmp.resize(std::cin.gcount());
-        buffer += tmp;
+
+        if (buffer.empty())
+            continue;
 
         if (logger)
             LOGGER << __func__ << ": " << buffer << std::endl;
-- 
2.43.0


From 2eda3ad25d2d3675fe1599569c4347d75da94ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:17 +0000
Subject: [PATCH 02/25] fix: survive malformed messages, answer with the
 request's own id

Missing or wrongly typed members were undefined behaviour, deep nesting
exhausted the stack, string and large ids were answered with another id,
texts with an embedded NUL were cut short and of several content changes the
first one instead of the last one was used.
---
 nclangsrv/JsonMessageHandler.cpp | 128 ++++++++++++++++++++++---------
 nclangsrv/JsonMessageHandler.h   |  13 +++-
 2 files changed, 102 insertions(+), 39 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index df2fb44..a5d17f6 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -184,6 +184,48 @@ std::string getLangPrefix(parser::ELanguage lang)
     return lang_prefix;
 }
 
+// bounds the recursion when a message is parsed, copied or written
+bool nestingTooDeep(const std::string& json)
+{
+    constexpr size_t maxDepth = 512;
+
+    size_t depth{};
+    bool   inString{};
+    for (size_t i = 0; i < json.size(); ++i)
+    {
+        const char c = json[i];
+        if (inString)
+        {
+            if (c == '\\')
+                ++i;
+            else if (c == '"')
+                inString = false;
+        }
+        else if (c == '"')
+            inString = true;
+        else if (c == '[' || c == '{')
+        {
+            if (++depth > maxDepth)
+                return true;
+        }
+        else if ((c == ']' || c == '}') && depth > 0)
+            --depth;
+    }
+
+    return false;
+}
+
+// a request may be identified by a number or by a string
+rapidjson::Value requestId(const rapidjson::Document& request, rapidjson::Document::AllocatorType& a)
+{
+    return rapidjson::Value(request["id"], a);
+}
+
+std::string toString(const rapidjson::Value& value)
+{
+    return {value.GetString(), value.GetStringLength()};
+}
+
 } // namespace
 
 #define LOGGER (*mLogger)()
@@ -202,27 +244,41 @@ JsonMessageHandler::JsonMessageHandler(Logger* logger, const std::string& rootPa
 
 bool JsonMessageHandler::parse(const std::string& json)
 {
-    int32_t     id{};
-    std::string method;
+    try
+    {
+        if (nestingTooDeep(json))
+            throw std::runtime_error("JSON nesting too deep");
 
-    rapidjson::Document d;
+        rapidjson::Document d;
+
+        rapidjson::ParseResult parse_result = d.Parse(json.data(), json.size());
+        if (not parse_result)
+        {
+            if (mLogger)
+                LOGGER << "JsonMessageHandler::" << __func__
+                       << ": JSON parse error: " << rapidjson::GetParseErrorFunc(parse_result.Code()) << "("
+                       << parse_result.Offset() << ")" << std::endl;
+            return false;
+        }
 
-    rapidjson::ParseResult parse_result = d.Parse(json.c_str());
-    if (not parse_result)
+        dispatch(d);
+    }
+    catch (const std::exception& e)
     {
         if (mLogger)
-            LOGGER << "JsonMessageHandler::" << __func__
-                   << ": JSON parse error: " << rapidjson::GetParseErrorFunc(parse_result.Code()) << "("
-                   << parse_result.Offset() << ")" << std::endl;
+        {
+            LOGGER << "JsonMessageHandler::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
+        return false;
     }
 
-    if (d.HasMember("id"))
-    {
-        if (d["id"].IsInt())
-            id = d["id"].GetInt();
-        else if (d["id"].IsString())
-            id = atoi(d["id"].GetString());
-    }
+    return true;
+}
+
+void JsonMessageHandler::dispatch(const rapidjson::Document& d)
+{
+    std::string method;
 
     if (d.HasMember("method"))
     {
@@ -235,11 +291,11 @@ bool JsonMessageHandler::parse(const std::string& json)
     }
 
     if (mLogger)
-        LOGGER << "JsonMessageHandler::" << __func__ << ": id:" << id << ", method:" << method << std::endl;
+        LOGGER << "JsonMessageHandler::" << __func__ << ": method:" << method << std::endl;
 
     if (method == "initialize")
     {
-        initialize(id);
+        initialize(d);
     }
     else if (method == "initialized")
     {
@@ -263,7 +319,7 @@ bool JsonMessageHandler::parse(const std::string& json)
     }
     else if (method == "textDocument/completion")
     {
-        textDocument_completion(id);
+        textDocument_completion(d);
     }
     else if (method == "completionItem/resolve")
     {
@@ -287,7 +343,7 @@ bool JsonMessageHandler::parse(const std::string& json)
     }
     else if (method == "shutdown")
     {
-        shutdown(id);
+        shutdown(d);
     }
     else if (method == "exit")
     {
@@ -298,18 +354,16 @@ bool JsonMessageHandler::parse(const std::string& json)
         if (mLogger)
             LOGGER << "JsonMessageHandler::" << __func__ << ": WRN: No handler for method: " << method << std::endl;
     }
-
-    return true;
 }
 
-void JsonMessageHandler::initialize(int32_t id)
+void JsonMessageHandler::initialize(const rapidjson::Document& request)
 {
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -373,7 +427,7 @@ void JsonMessageHandler::textDocument_didOpen(const rapidjson::Document& request
     const auto& params       = request["params"];
     const auto& textDocument = params["textDocument"];
 
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(), textDocument["text"].GetString());
+    textDocument_publishDiagnostics(toString(textDocument["uri"]), toString(textDocument["text"]));
 }
 
 void JsonMessageHandler::textDocument_didChange(const rapidjson::Document& request)
@@ -382,7 +436,9 @@ void JsonMessageHandler::textDocument_didChange(const rapidjson::Document& reque
     const auto& textDocument   = params["textDocument"];
     const auto& contentChanges = params["contentChanges"];
 
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(), contentChanges[0]["text"].GetString());
+    // every change holds the full content, the last one is in effect
+    textDocument_publishDiagnostics(toString(textDocument["uri"]),
+                                    toString(contentChanges[contentChanges.Size() - 1]["text"]));
 }
 
 void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& request)
@@ -390,7 +446,7 @@ void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& reques
     const auto& params       = request["params"];
     const auto& textDocument = params["textDocument"];
 
-    mFileContexts.erase(textDocument["uri"].GetString());
+    mFileContexts.erase(toString(textDocument["uri"]));
 }
 
 void JsonMessageHandler::fetch_gCodesDesc()
@@ -444,7 +500,7 @@ void JsonMessageHandler::fetch_macrosDesc()
     }
 }
 
-void JsonMessageHandler::textDocument_completion(int32_t id)
+void JsonMessageHandler::textDocument_completion(const rapidjson::Document& request)
 {
     fetch_gCodesDesc();
     fetch_mCodesDesc();
@@ -454,7 +510,7 @@ void JsonMessageHandler::textDocument_completion(int32_t id)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result(rapidjson::kArrayType);
     {
@@ -498,7 +554,7 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -607,7 +663,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     const int   character    = position["character"].GetInt();
     const auto& textDocument = params["textDocument"];
 
-    const std::string uri = textDocument["uri"].GetString();
+    const std::string uri = toString(textDocument["uri"]);
 
     std::string               strLine;
     parser::fanuc::macro_map* macroMap{};
@@ -642,7 +698,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -795,7 +851,7 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
     const auto& params       = request["params"];
     const auto& textDocument = params["textDocument"];
 
-    const std::string uri = textDocument["uri"].GetString();
+    const std::string uri = toString(textDocument["uri"]);
 
     PathTimeResult* pathTimeResult{};
 
@@ -819,7 +875,7 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result(rapidjson::kArrayType);
 
@@ -907,7 +963,7 @@ void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
 
@@ -966,14 +1022,14 @@ void JsonMessageHandler::cancelRequest()
 {
 }
 
-void JsonMessageHandler::shutdown(int32_t id)
+void JsonMessageHandler::shutdown(const rapidjson::Document& request)
 {
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result;
     d.AddMember("result", result, a);
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index d712d3d..3404bd7 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -2,9 +2,15 @@
 
 #include <fstream>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
+// missing or wrongly typed members of a message are errors, not undefined behaviour
+#define RAPIDJSON_ASSERT_THROWS
+#define RAPIDJSON_ASSERT(x)                                                                                            \
+    if (!(x))                                                                                                          \
+    throw std::logic_error("RapidJSON: " #x)
 #include <rapidjson/document.h>
 
 #include <GeneralParserDefines.h>
@@ -31,19 +37,20 @@ public:
     }
 
 private:
-    void initialize(int32_t id);
+    void dispatch(const rapidjson::Document& d);
+    void initialize(const rapidjson::Document& request);
     void initialized();
     void workspace_didChangeConfiguration(const rapidjson::Document& request);
     void textDocument_didOpen(const rapidjson::Document& request);
     void textDocument_didChange(const rapidjson::Document& request);
     void textDocument_didClose(const rapidjson::Document& request);
-    void textDocument_completion(int32_t id);
+    void textDocument_completion(const rapidjson::Document& request);
     void completionItem_resolve(const rapidjson::Document& request);
     void textDocument_hover(const rapidjson::Document& request);
     void textDocument_codeLens(const rapidjson::Document& request);
     void codeLens_resolve(const rapidjson::Document& request);
     void cancelRequest();
-    void shutdown(int32_t id);
+    void shutdown(const rapidjson::Document& request);
     void textDocument_publishDiagnostics(const std::string& uri, const std::string& content);
 
     void fetch_gCodesDesc();
-- 
2.43.0


From 7d54d91df6050768196ca9dd0e24c463c32f8713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:54 +0000
Subject: [PATCH 03/25] fix: describe codes of the control named in the
 settings, retry failed reads

A description file that was missing ended the server (fs::canonical throws),
one that could not be read was never read again, and descriptions fetched
before the settings could be read stayed those of the default control.
---
 nclangsrv/CodesReader.h          |  5 +++
 nclangsrv/JsonMessageHandler.cpp | 76 +++++++++++++++-----------------
 nclangsrv/JsonMessageHandler.h   |  2 +-
 nclangsrv/MacrosDescReader.h     |  5 +++
 4 files changed, 47 insertions(+), 41 deletions(-)

diff --git a/nclangsrv/CodesReader.h b/nclangsrv/CodesReader.h
index 66ff21b..8ec1454 100644
--- a/nclangsrv/CodesReader.h
+++ b/nclangsrv/CodesReader.h
@@ -15,6 +15,11 @@ public:
 
     bool read();
 
+    const std::string& getPath() const
+    {
+        return mPath;
+    }
+
     using TitleDescPair = std::pair<std::string, std::string>;
 
     const std::map<std::string, TitleDescPair>& getDesc() const
diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index a5d17f6..7abde50 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -449,55 +449,40 @@ void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& reques
     mFileContexts.erase(toString(textDocument["uri"]));
 }
 
-void JsonMessageHandler::fetch_gCodesDesc()
+std::string JsonMessageHandler::descPath(const std::string& name)
 {
-    if (!mGCodes.get())
-    {
-        auto fsRootPath = fs::path(mRootPath);
-        auto descPath   = fs::canonical(fsRootPath / fs::path("conf") /
-                                      fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
-                                      fs::path("desc") / fs::path("gcode_desc_" + getLangPrefix(mLanguage) + ".json"))
-                            .string();
-        mGCodes = std::make_unique<CodesReader>(descPath, mLogger);
-        mGCodes->read();
+    // the control is known only once the settings have been read
+    if (!mNcSettingsReader.getNcSettingsPath().empty())
+        mNcSettingsReader.read();
+
+    return (fs::path(mRootPath) / fs::path("conf") / fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
+            fs::path("desc") / fs::path(name + "_" + getLangPrefix(mLanguage) + ".json"))
+        .lexically_normal()
+        .string();
+}
 
-        for (const auto& v : mGCodes->getCodes())
-            mSuggestions.push_back("G" + v);
-    }
+void JsonMessageHandler::fetch_gCodesDesc()
+{
+    const auto path = descPath("gcode_desc");
+    if (!mGCodes.get() || mGCodes->getPath() != path)
+        mGCodes = std::make_unique<CodesReader>(path, mLogger);
+    mGCodes->read();
 }
 
 void JsonMessageHandler::fetch_mCodesDesc()
 {
-    if (!mMCodes.get())
-    {
-        auto fsRootPath = fs::path(mRootPath);
-        auto descPath   = fs::canonical(fsRootPath / fs::path("conf") /
-                                      fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
-                                      fs::path("desc") / fs::path("mcode_desc_" + getLangPrefix(mLanguage) + ".json"))
-                            .string();
-        mMCodes = std::make_unique<CodesReader>(descPath, mLogger);
-        mMCodes->read();
-
-        for (const auto& v : mMCodes->getCodes())
-            mSuggestions.push_back("M" + v);
-    }
+    const auto path = descPath("mcode_desc");
+    if (!mMCodes.get() || mMCodes->getPath() != path)
+        mMCodes = std::make_unique<CodesReader>(path, mLogger);
+    mMCodes->read();
 }
 
 void JsonMessageHandler::fetch_macrosDesc()
 {
-    if (!mMacrosDesc.get())
-    {
-        auto fsRootPath = fs::path(mRootPath);
-        auto descPath   = fs::canonical(fsRootPath / fs::path("conf") /
-                                      fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
-                                      fs::path("desc") / fs::path("macros_desc_" + getLangPrefix(mLanguage) + ".json"))
-                            .string();
-        mMacrosDesc = std::make_unique<MacrosDescReader>(descPath, mMacrosDescUserPath, mLogger);
-        mMacrosDesc->read();
-
-        for (const auto& v : mMacrosDesc->getMacros())
-            mSuggestions.push_back("#" + v);
-    }
+    const auto path = descPath("macros_desc");
+    if (!mMacrosDesc.get() || mMacrosDesc->getPath() != path)
+        mMacrosDesc = std::make_unique<MacrosDescReader>(path, mMacrosDescUserPath, mLogger);
+    mMacrosDesc->read();
 }
 
 void JsonMessageHandler::textDocument_completion(const rapidjson::Document& request)
@@ -514,8 +499,19 @@ void JsonMessageHandler::textDocument_completion(const rapidjson::Document& requ
 
     rapidjson::Value result(rapidjson::kArrayType);
     {
+        std::vector<std::string> suggestions;
+        for (const auto& v : mGCodes->getCodes())
+            suggestions.push_back("G" + v);
+        for (const auto& v : mMCodes->getCodes())
+            suggestions.push_back("M" + v);
+        if (mMacrosDesc)
+        {
+            for (const auto& v : mMacrosDesc->getMacros())
+                suggestions.push_back("#" + v);
+        }
+
         int cnt{};
-        for (const auto& value : mSuggestions)
+        for (const auto& value : suggestions)
         {
             rapidjson::Value entry(rapidjson::kObjectType);
             rapidjson::Value label;
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index 3404bd7..b7865a8 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -53,6 +53,7 @@ private:
     void shutdown(const rapidjson::Document& request);
     void textDocument_publishDiagnostics(const std::string& uri, const std::string& content);
 
+    std::string descPath(const std::string& name);
     void fetch_gCodesDesc();
     void fetch_mCodesDesc();
     void fetch_macrosDesc();
@@ -74,7 +75,6 @@ private:
 
 private:
     std::map<std::string, FileContext> mFileContexts;
-    std::vector<std::string>           mSuggestions;
     Logger*                            mLogger;
     std::unique_ptr<CodesReader>       mGCodes;
     std::unique_ptr<CodesReader>       mMCodes;
diff --git a/nclangsrv/MacrosDescReader.h b/nclangsrv/MacrosDescReader.h
index 6cfe2e2..963e3bc 100644
--- a/nclangsrv/MacrosDescReader.h
+++ b/nclangsrv/MacrosDescReader.h
@@ -24,6 +24,11 @@ public:
 
     bool read();
 
+    const std::string& getPath() const
+    {
+        return mPath;
+    }
+
     using MacroDescPair   = std::pair<std::string, std::string>;
     using MacroCodesRange = std::pair<int, int>;
 
-- 
2.43.0


From 194c4a0aa9abcce8a31b864eac3ca8f86063a493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:55 +0000
Subject: [PATCH 04/25] fix: retry configuration that could not be read, keep
 descriptions apart

A missing grammar or code groups file ended the server, one that could not be
read was silently replaced by an empty one for all later analyses. A bad user
macro file hid the built-in descriptions and was reported only once. Problems
in descriptions dereferenced the logger even without a log.
---
 nclangsrv/MacrosDescReader.cpp | 58 +++++++++++++++++++++++++++-------
 nclangsrv/MacrosDescReader.h   |  1 +
 nclangsrv/NCParser.cpp         | 25 ++++++++-------
 3 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 2674376..6aeae97 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -28,20 +28,42 @@ bool MacrosDescReader::read()
     if (mRead)
         return true;
 
-    mData.clear();
-    mMacros.clear();
+    mData   = decltype(mData)();
+    mMacros = decltype(mMacros)();
+    mRanges = decltype(mRanges)();
 
+    // a problem in one file must not hide the descriptions of the other one
+    std::string problem;
     if (not mMacrosDescUserPath.empty())
-        readJson(mMacrosDescUserPath);
-    readJson(mPath);
+        problem = tryReadJson(mMacrosDescUserPath);
+    const auto problemBuiltIn = tryReadJson(mPath);
+    if (problem.empty())
+        problem = problemBuiltIn;
 
     readRanges();
 
+    if (not problem.empty())
+        throw json_parser_exception(problem);
+
     mRead = true;
 
     return true;
 }
 
+std::string MacrosDescReader::tryReadJson(const std::string& path)
+{
+    try
+    {
+        readJson(path);
+    }
+    catch (const json_parser_exception& e)
+    {
+        return e.what();
+    }
+
+    return {};
+}
+
 void MacrosDescReader::readJson(const std::string& path)
 {
     try
@@ -102,14 +124,20 @@ void MacrosDescReader::readRanges()
                 }
                 catch (const std::invalid_argument& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
                 catch (const std::out_of_range& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
 
@@ -134,14 +162,20 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
     catch (const std::invalid_argument& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
     catch (const std::out_of_range& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
 
diff --git a/nclangsrv/MacrosDescReader.h b/nclangsrv/MacrosDescReader.h
index 963e3bc..d45d9d3 100644
--- a/nclangsrv/MacrosDescReader.h
+++ b/nclangsrv/MacrosDescReader.h
@@ -44,6 +44,7 @@ public:
     }
 
 private:
+    std::string tryReadJson(const std::string& path);
     void readJson(const std::string& path);
     void readRanges();
 
diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index c867542..8958038 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -271,14 +271,15 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         std::ostringstream ostr;
         ostr << mNcSettingsReader.getFanucParserType();
         const std::string grammarPath =
-            fs::canonical(fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("grammar.json")).string();
+            (fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("grammar.json"))
+                .lexically_normal()
+                .string();
         if (mLogger)
             LOGGER << "NCParser::" << __func__ << ": grammarPath: " << grammarPath << std::endl;
         mWordGrammarReader = std::make_unique<WordGrammarReader>(grammarPath, mLogger);
-
-        if (!mWordGrammarReader->read())
-            return {{"ERROR: Couldn't read word grammar settings"}, {}, {}};
     }
+    if (!mWordGrammarReader->read())
+        return {{"ERROR: Couldn't read word grammar settings"}, {}, {}};
 
     if (!mGCodeGroupsReader.get())
     {
@@ -286,15 +287,15 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         std::ostringstream ostr;
         ostr << mNcSettingsReader.getFanucParserType();
         const std::string gCodeGroupsPath =
-            fs::canonical(fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("gcode_groups.json"))
+            (fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("gcode_groups.json"))
+                .lexically_normal()
                 .string();
         if (mLogger)
             LOGGER << "NCParser::" << __func__ << ": gCodeGroupsPath: " << gCodeGroupsPath << std::endl;
         mGCodeGroupsReader = std::make_unique<CodeGroupsReader>(gCodeGroupsPath, mLogger);
-
-        if (!mGCodeGroupsReader->read())
-            return {{"ERROR: Couldn't read gcode groups settings"}, {}, {}};
     }
+    if (!mGCodeGroupsReader->read())
+        return {{"ERROR: Couldn't read gcode groups settings"}, {}, {}};
 
     if (!mMCodeGroupsReader.get())
     {
@@ -302,15 +303,15 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         std::ostringstream ostr;
         ostr << mNcSettingsReader.getFanucParserType();
         const std::string mCodeGroupsPath =
-            fs::canonical(fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("mcode_groups.json"))
+            (fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("mcode_groups.json"))
+                .lexically_normal()
                 .string();
         if (mLogger)
             LOGGER << "NCParser::" << __func__ << ": mCodeGroupsPath: " << mCodeGroupsPath << std::endl;
         mMCodeGroupsReader = std::make_unique<CodeGroupsReader>(mCodeGroupsPath, mLogger);
-
-        if (!mMCodeGroupsReader->read())
-            return {{"ERROR: Couldn't read mcode groups settings"}, {}, {}};
     }
+    if (!mMCodeGroupsReader->read())
+        return {{"ERROR: Couldn't read mcode groups settings"}, {}, {}};
 
     auto word_grammar = mWordGrammarReader->getWordGrammar();
     auto operations   = mWordGrammarReader->getOperations();
-- 
2.43.0


From bb032221d2b8a2b6271a0fdc40840cc548f32223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:48 +0000
Subject: [PATCH 05/25] fix: answer completionItem/resolve, hover and
 codeLens/resolve correctly at any time

Resolving an item before the descriptions were fetched and hovering a macro
number out of range ended the server; a lens was resolved against the document
whose lenses were asked for last, not against its own.
---
 nclangsrv/JsonMessageHandler.cpp | 39 +++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 7abde50..49664e9 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -2,6 +2,7 @@
 
 #include "JsonMessageHandler.h"
 
+#include <charconv>
 #include <chrono>
 #include <filesystem>
 #include <iostream>
@@ -143,6 +144,14 @@ std::string extractCode(const std::string& data)
     return code;
 }
 
+// -1, which is never the number of a macro, if it is out of range
+decltype(parser::fanuc::macro_map_key::id) toMacroId(const std::string& code)
+{
+    decltype(parser::fanuc::macro_map_key::id) id{};
+    const auto ret = std::from_chars(code.data(), code.data() + code.size(), id);
+    return ret.ec == std::errc() ? id : -1;
+}
+
 std::string replaceAll(const std::string& str1, const std::string& from, const std::string& to)
 {
     std::string str       = str1;
@@ -590,6 +599,7 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
             {
                 if (label[0] == 'G' || label[0] == 'g')
                 {
+                    fetch_gCodesDesc();
                     auto it = mGCodes->getDesc().find(label.substr(1));
                     if (it != mGCodes->getDesc().cend())
                     {
@@ -599,6 +609,7 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
                 }
                 else if (label[0] == 'M' || label[0] == 'm')
                 {
+                    fetch_mCodesDesc();
                     auto it = mMCodes->getDesc().find(label.substr(1));
                     if (it != mMCodes->getDesc().cend())
                     {
@@ -608,6 +619,14 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
                 }
                 else if (label[0] == '#')
                 {
+                    try
+                    {
+                        fetch_macrosDesc();
+                    }
+                    catch (const json_parser_exception&)
+                    {
+                        // reported with the diagnostics
+                    }
                     std::tie(title, desc) = mMacrosDesc->getDesc(label.substr(1));
                 }
             }
@@ -742,7 +761,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             {
                 std::string code = extractCode(contents.substr(2));
 
-                auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                auto macroId = toMacroId(code);
 
                 auto itm = macroMap->lower_bound({macroId, line + 1});
                 if (itm != macroMap->cend() && itm->first.id == macroId)
@@ -785,7 +804,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                 if (!contents.empty())
                 {
                     auto code    = extractCode(contents.substr(1));
-                    auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                    auto macroId = toMacroId(code);
 
                     bool exist{};
 
@@ -887,6 +906,10 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
             {
                 entry.AddMember("range", makeRange(static_cast<int>(value.first), 0, 0, a), a);
 
+                // the document the lens belongs to, needed to resolve it
+                entry.AddMember("data", rapidjson::Value(uri.c_str(), static_cast<rapidjson::SizeType>(uri.size()), a),
+                                a);
+
                 // --- optional, if not provided then codeLens/resolve request will be sent to resolve missing commands.
                 // But since computation of Path/Time is in no time (already computed) then it is faster to send
                 // everything in one go. Resolving one by one seems to be a performance problem on Windows which is
@@ -937,15 +960,17 @@ void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
     const auto& start  = range["start"];
     const int   line   = start["line"].GetInt();
 
+    const auto  data = params.FindMember("data");
+    const auto  uri  = data != params.MemberEnd() && data->value.IsString() ? toString(data->value) : mCurrentUri;
+
     PathTimeResult* pathTimeResult{};
 
-    auto it = mFileContexts.find(mCurrentUri);
+    auto it = mFileContexts.find(uri);
     if (it == mFileContexts.cend())
     {
         if (mLogger)
         {
-            LOGGER << "JsonMessageHandler::" << __func__ << ": Couldn't find content for uri: " << mCurrentUri
-                   << std::endl;
+            LOGGER << "JsonMessageHandler::" << __func__ << ": Couldn't find content for uri: " << uri << std::endl;
             mLogger->flush();
         }
     }
@@ -976,6 +1001,8 @@ void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
             rapidjson::Value r(rapidjson::kObjectType);
             r.CopyFrom(range, a);
             result.AddMember("range", r, a);
+            if (data != params.MemberEnd())
+                result.AddMember("data", rapidjson::Value(data->value, a), a);
 
             rapidjson::Value command(rapidjson::kObjectType);
             {
@@ -1135,7 +1162,7 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
                         character--;
                     result_message = tokens[2];
                 }
-                else
+                else if (tokens.size() > 1)
                 {
                     result_message = tokens[1];
                 }
-- 
2.43.0


From af8866f59278a0bfe7b1707769793f6dab5b98ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:30 +0000
Subject: [PATCH 06/25] fix: turn every failure to parse a block into a message

A word without digits, a split that cannot be made and MOD 0 ended in an
exception (or a signal) that left the whole program without diagnostics.
---
 parser/fanuc/AllAttributesParser.cpp | 38 +++++++++++++++++++---------
 parser/fanuc/ValueCalculator.cpp     |  8 +++++-
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index a16b874..f63bef5 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -7,6 +7,7 @@
 
 #include <array>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -321,7 +322,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
         message = e.what();
         return false;
     }
-    catch (const std::out_of_range& e)
+    catch (const std::logic_error& e)
     {
         message = e.what();
         return false;
@@ -359,7 +360,7 @@ bool AllAttributesParser::simple_parse(int line, std::string_view data, std::vec
             msg << " <- " << message;
         message = msg.str();
     }
-    catch (const std::out_of_range& e)
+    catch (const std::logic_error& e)
     {
         message = e.what();
         return false;
@@ -393,15 +394,23 @@ bool AllAttributesParser::convert_length(int line, std::string_view data, std::v
     if (!simple_parse(line, data, value, message, single_line_msg))
         return false;
 
-    switch (conversion_type)
+    try
     {
-    case UnitConversionType::metric_to_imperial:
-        unit_converter.mm_to_inch(value);
-        break;
-    case UnitConversionType::imperial_to_metric:
-        unit_converter.inch_to_mm(value);
-        break;
-    default:
+        switch (conversion_type)
+        {
+        case UnitConversionType::metric_to_imperial:
+            unit_converter.mm_to_inch(value);
+            break;
+        case UnitConversionType::imperial_to_metric:
+            unit_converter.inch_to_mm(value);
+            break;
+        default:
+            return false;
+        }
+    }
+    catch (const std::logic_error& e)
+    {
+        message = e.what();
         return false;
     }
 
@@ -460,7 +469,7 @@ bool AllAttributesParser::rotate_axes(int line, std::string_view data, std::vect
     {
         AxesRotator()(axes_rotating_options, value);
     }
-    catch (const std::out_of_range& e)
+    catch (const std::logic_error& e)
     {
         message = e.what();
         return false;
@@ -558,7 +567,12 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     renumberer.renumber(y, rs);
         }
     }
-    catch (const std::out_of_range& e)
+    catch (const file_splitter_exception& e)
+    {
+        message = e.what();
+        return false;
+    }
+    catch (const std::logic_error& e)
     {
         message = e.what();
         return false;
diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index a1e74e6..6441d24 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -240,7 +240,13 @@ public:
         else if (x.operator_name == "XOR")
             return static_cast<int>(lhs) ^ static_cast<int>(rhs);
         else if (x.operator_name == "MOD")
-            return static_cast<int>(lhs) % static_cast<int>(rhs);
+        {
+            const auto divisor = static_cast<int>(rhs);
+            if (divisor == 0)
+                throw eval_exception(make_message(MessageName::UnsupportedBinaryOperation, language, "MOD 0"));
+            // the smallest int divided by -1 does not fit in an int
+            return divisor == -1 ? 0 : static_cast<int>(lhs) % divisor;
+        }
 
         // BOOST_ASSERT(0);
         // return 0;
-- 
2.43.0


From 49b8f0ec6a80be41cfef5f2c494a911e6d750c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:08 +0000
Subject: [PATCH 07/25] fix: reject expressions nested too deeply to evaluate

Evaluation copies and recurses once per bracket and sign, so a line of a few
hundred brackets kept the parser busy for minutes or overflowed the stack.
---
 parser/fanuc/ValueCalculator.cpp | 52 ++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 6441d24..be866f8 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -9,6 +9,8 @@
 #include <cmath>
 #include <iomanip>
 #include <limits>
+#include <string>
+#include <vector>
 
 #ifndef M_PI
 #define M_PI (3.14159265358979323846)
@@ -397,6 +399,53 @@ void ValueCalculator::build_symbols()
     sym.add("BIN", "bin");
 }
 
+// The grammar and the evaluation recurse into every bracket and every unary operator.
+constexpr int max_nesting = 64;
+
+static bool nested_too_deep(const std::string& data)
+{
+    // pending unary operators of every open bracket
+    std::vector<int> unary{0};
+    int              depth{};
+    for (auto c : data)
+    {
+        switch (c)
+        {
+        case '(':
+        case '[':
+            unary.push_back(0);
+            ++depth;
+            break;
+        case ')':
+        case ']':
+            if (unary.size() > 1)
+            {
+                depth -= unary.back() + 1;
+                unary.pop_back();
+            }
+            depth -= unary.back();
+            unary.back() = 0;
+            break;
+        case '+':
+        case '-':
+        case '#':
+            ++unary.back();
+            ++depth;
+            break;
+        default:
+            if (c >= '0' && c <= '9')
+            {
+                depth -= unary.back();
+                unary.back() = 0;
+            }
+            break;
+        }
+        if (depth > max_nesting)
+            return true;
+    }
+    return false;
+}
+
 bool ValueCalculator::parse(const std::string& data, std::string& message, bool single_line_msg,
                             const macro_map& macro_values, double& value, ELanguage language)
 {
@@ -411,6 +460,9 @@ bool ValueCalculator::parse(const std::string& data, std::string& message, bool
 
     try
     {
+        if (nested_too_deep(data))
+            throw eval_exception(make_message(MessageName::UnsupportedOperation, language, "nesting"));
+
         program p;
 
         ret = qi::phrase_parse(iter, pos_end, calc, qi::blank, p);
-- 
2.43.0


From e5d0a135ea3aad1edbb895895335195c46fcae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:18 +0000
Subject: [PATCH 08/25] fix: report a missing Q, Z or macro number instead of
 reading past it

---
 parser/fanuc/AttributesPathCalculator.cpp   | 48 +++++++++++----------
 parser/fanuc/MacroEvaluatedCodeVerifier.cpp |  2 +
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 75460ec..624337f 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -3,6 +3,7 @@
 #include "AttributesPathCalculator.h"
 
 #include <array>
+#include <cmath>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -943,6 +944,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
         if (active_helix != EHelixType::None)
         {
+            if (!z_prev)
+                throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
+
             calculate_arc     = false;
             const auto i_prev = get_optional_value(prev_values, param1);
             const auto j_prev = get_optional_value(prev_values, param2);
@@ -971,21 +975,22 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
             if (current_g9091 == EProgrammingType::Incremental)
             {
+                const auto z_curr = z ? *z : 0.;
                 if (active_helix == EHelixType::Full)
                 {
                     if ((!x || *x == 0.) && (!y || *y == 0.))
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_incr(z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_r_incr(z_curr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(*z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(z_curr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(*z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(z_curr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -995,9 +1000,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     {
                         first_helix_quarter_incr_block = false;
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter_incr(z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r_incr(z_curr, *r);
                     }
                     else
                     {
@@ -1016,16 +1021,16 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev == x_curr && *y_prev == y_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, *z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, z_curr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, *z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, z_curr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -1034,9 +1039,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev != x_curr && *y_prev != y_curr && *z_prev != z_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
@@ -1196,7 +1201,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (dcq)
             {
                 const auto qit = values.find("Q");
-                if (rit == std::end(values))
+                if (qit == std::end(values))
                     throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
                 if (current_g9091 == EProgrammingType::Incremental)
                 {
@@ -1258,16 +1263,13 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         {
             if (current_g9091 == EProgrammingType::Incremental)
             {
-                int holes = 1;
-                if (k && k > 0)
-                    holes = static_cast<decltype(holes)>(*k);
-                for (int h = 0; h < holes; ++h)
-                {
-                    auto [work_motion, fast_motion] =
-                        func_drill_cycle_hole_incr(x ? *x : 0., y ? *y : 0., path_result.cycle_distance);
-                    path_result.work_motion += work_motion;
-                    path_result.fast_motion += fast_motion;
-                }
+                double holes = 1;
+                if (k && *k > 0)
+                    holes = std::trunc(*k);
+                const auto [work_motion, fast_motion] =
+                    func_drill_cycle_hole_incr(x ? *x : 0., y ? *y : 0., path_result.cycle_distance);
+                path_result.work_motion = holes * work_motion;
+                path_result.fast_motion = holes * fast_motion;
             }
             else
             {
diff --git a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
index fac2654..8d35e44 100644
--- a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
+++ b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
@@ -46,6 +46,8 @@ public:
             text += *data.open_bracket;
         if (was_interesting_word && data.macro)
         {
+            if (!data.value)
+                throw macro_evaluated_code_exception(make_message(MessageName::MissingValue, language, "#"));
             unsigned int val        = std::stoi(*data.value);
             auto         macro_itor = macro_values.lower_bound({val, line});
             if (macro_itor == std::end(macro_values) ||
-- 
2.43.0


From 501dc728d2dddd6081b826c300093ca430d6023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:58 +0000
Subject: [PATCH 09/25] fix: move machine points to the zero point of their own
 axis

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index f63bef5..ac4fd24 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -146,13 +146,13 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
     for (const auto& it : machine_points_data.tool_exchange_point)
     {
         machine_points_data_zero_point.tool_exchange_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     for (const auto& it : machine_points_data.machine_base_point)
     {
         machine_points_data_zero_point.machine_base_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     attr_path_calc =
-- 
2.43.0


From 7acb4e6568ea4ff1579b9c96e0a85907a65be314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:19 +0000
Subject: [PATCH 10/25] fix: check every block on its own, not with the
 brackets of earlier blocks

---
 parser/fanuc/AllAttributesParserGrammar.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index abbfaac..2260fac 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -476,6 +476,7 @@ public:
     void clear_message()
     {
         message.clear();
+        st = {};
     }
 
 private:
-- 
2.43.0


From 8f25eca1d19be18ebb4ef860748bf58b26652d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:49 +0000
Subject: [PATCH 11/25] fix: reset the unit system, rotation and tool state
 together with the path

---
 parser/fanuc/AllAttributesParser.cpp      | 5 +++++
 parser/fanuc/AttributesPathCalculator.cpp | 1 +
 2 files changed, 6 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index ac4fd24..6657023 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -101,6 +101,11 @@ void AllAttributesParser::init_macro_values()
 
 void AllAttributesParser::reset_attributes_path_calculator()
 {
+    active_word_grammar =
+        attr_path_calc->get_cnc_default_values().default_driver_units == EDriverUnits::Millimeter
+            ? &word_grammar.metric
+            : &word_grammar.imperial;
+    rotation_verifier = RotationVerifier{};
     attr_path_calc->reset();
 }
 
diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 624337f..31ab729 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -455,6 +455,7 @@ void AttributesPathCalculator::reset()
     active_feed_mode = cnc_default_values.default_feed_mode;
     active_helix     = EHelixType::None;
     active_t.clear();
+    active_auto_rapid_traverse_after_tool_exchange = false;
     copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
 }
 
-- 
2.43.0


From a10e8f186d92516083856a4280731d4827eb6bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 12/25] fix: find the code under the cursor without recursing
 over the line

---
 nclangsrv/JsonMessageHandler.cpp | 84 ++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 26 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 49664e9..654e262 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -9,6 +9,7 @@
 #include <memory>
 #include <regex>
 #include <sstream>
+#include <string_view>
 #include <thread>
 
 #include <boost/algorithm/string/trim.hpp>
@@ -115,33 +116,68 @@ void hoverMakeResult(const std::string& contents, int line, size_t from, size_t
     result.AddMember("range", makeRange(line, from, to, a), a);
 }
 
-std::string searchPattern(const std::regex& r, const std::string& contentLine, int character, size_t& from, size_t& to)
+// Length of the code at pos: [GgMm]\d+\.?\d?, 0 if there is none
+size_t matchGMCode(const std::string& line, size_t pos)
 {
-    size_t      pos{};
-    std::string strLine = contentLine;
-    std::smatch m;
-    while (std::regex_search(strLine, m, r))
+    const auto isDigit = [&](size_t x) { return x < line.size() && line[x] >= '0' && line[x] <= '9'; };
+
+    if (std::string_view("GgMm").find(line[pos]) == std::string_view::npos || !isDigit(pos + 1))
+        return 0;
+    size_t end = pos + 1;
+    while (isDigit(end))
+        ++end;
+    if (end < line.size() && line[end] == '.')
+        ++end;
+    if (isDigit(end))
+        ++end;
+    return end - pos;
+}
+
+// Length of the macro at pos: #\d+, 0 if there is none
+size_t matchMacro(const std::string& line, size_t pos)
+{
+    if (line[pos] != '#')
+        return 0;
+    size_t end = pos + 1;
+    while (end < line.size() && line[end] >= '0' && line[end] <= '9')
+        ++end;
+    return end == pos + 1 ? 0 : end - pos;
+}
+
+// Length of the code at pos: [GgMm]#\d+, 0 if there is none
+size_t matchGMMacro(const std::string& line, size_t pos)
+{
+    if (std::string_view("GgMm").find(line[pos]) == std::string_view::npos || pos + 1 >= line.size())
+        return 0;
+    const size_t length = matchMacro(line, pos + 1);
+    return length ? length + 1 : 0;
+}
+
+// std::regex is not used here because it needs stack space proportional to the length of the line
+std::string searchPattern(size_t (*match)(const std::string&, size_t), const std::string& contentLine, int character,
+                          size_t& from, size_t& to)
+{
+    for (size_t pos = 0; pos < contentLine.size();)
     {
-        if (character >= static_cast<int>(pos + m.position()) &&
-            character < static_cast<int>(pos + m.position() + m.str().size()))
+        const size_t length = match(contentLine, pos);
+        if (length && character >= static_cast<int>(pos) && character < static_cast<int>(pos + length))
         {
-            from = pos + m.position();
-            to   = pos + m.position() + m.str().size();
-            break;
+            from = pos;
+            to   = pos + length;
+            return contentLine.substr(pos, length);
         }
-        pos += m.position() + m.str().size();
-        strLine = m.suffix();
+        pos += length ? length : 1;
     }
 
-    return m.str();
+    return {};
 }
 
 std::string extractCode(const std::string& data)
 {
-    std::string code = data;
-    while (!code.empty() && code.size() > 1 && code[0] == '0')
-        code = code.substr(1);
-    return code;
+    const auto pos = data.find_first_not_of('0');
+    if (pos != std::string::npos)
+        return data.substr(pos);
+    return data.empty() ? data : "0";
 }
 
 // -1, which is never the number of a macro, if it is out of range
@@ -717,11 +753,10 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
-        size_t     from{};
-        size_t     to{};
-        std::regex r("[GgMm]\\d+\\.?\\d?");
+        size_t from{};
+        size_t to{};
 
-        std::string contents = searchPattern(r, strLine, character, from, to);
+        std::string contents = searchPattern(matchGMCode, strLine, character, from, to);
 
         if (!contents.empty())
         {
@@ -755,8 +790,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             size_t from{};
             size_t to{};
 
-            std::regex  rGM("[GgMm]#\\d+");
-            std::string contents = searchPattern(rGM, strLine, character, from, to);
+            std::string contents = searchPattern(matchGMMacro, strLine, character, from, to);
             if (!contents.empty() && contents.size() > 2)
             {
                 std::string code = extractCode(contents.substr(2));
@@ -797,9 +831,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             }
             else
             {
-                std::regex rm("#\\d+");
-
-                std::string contents = searchPattern(rm, strLine, character, from, to);
+                std::string contents = searchPattern(matchMacro, strLine, character, from, to);
 
                 if (!contents.empty())
                 {
-- 
2.43.0


From c462a338efa479177ca7a40453b052bbc72cd552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:56 +0000
Subject: [PATCH 13/25] fix: hand out complete results only, release them when
 completing fails

---
 parser/AllAttributesParserWrapperBase.cpp     |  40 ++++-
 parser/WrapperResults.h                       | 101 ++++++++++++
 parser/fanuc/AllAttributesParserWrapper.cpp   | 145 ++++++++----------
 .../heidenhain/AllAttributesParserWrapper.cpp |  58 ++++---
 4 files changed, 229 insertions(+), 115 deletions(-)
 create mode 100644 parser/WrapperResults.h

diff --git a/parser/AllAttributesParserWrapperBase.cpp b/parser/AllAttributesParserWrapperBase.cpp
index 67edd2c..d1e62fa 100644
--- a/parser/AllAttributesParserWrapperBase.cpp
+++ b/parser/AllAttributesParserWrapperBase.cpp
@@ -5,6 +5,7 @@
 #include "AllAttributesParserBase.h"
 #include "AllAttributesParserWrapperBase.h"
 #include "GeneralParserDefines.h"
+#include "WrapperResults.h"
 
 namespace parser {
 
@@ -46,20 +47,24 @@ void DisposeCharArray(char* data)
 
 bool Parse(AllAttributesParserWrapperBase* ptr, int line, const char* data, char** message, bool single_line_msg)
 {
+    *message = nullptr;
     std::string msg;
     auto        ret = ptr->get_parser()->parse(line, data, msg, single_line_msg);
-    if (!msg.empty())
-    {
-        *message = new char[msg.size() + 1];
-        memcpy(*message, &msg[0], msg.size());
-        (*message)[msg.size()] = 0;
-    }
+    *message        = make_c_message(msg).release();
     return ret;
 }
 
+static void clear(WordValueWrapper** value, int* length, char** message)
+{
+    *value   = nullptr;
+    *length  = 0;
+    *message = nullptr;
+}
+
 bool ParseValue(AllAttributesParserWrapperBase* ptr, int line, const char* data, WordValueWrapper** value, int* length,
                 char** message, bool single_line_msg)
 {
+    clear(value, length, message);
     return ptr->ParseValue(line, data, value, length, message, single_line_msg);
 }
 
@@ -81,12 +86,19 @@ void DisposeWordValueWrapper(WordValueWrapper* data, int length)
 void GetMacroValues(AllAttributesParserWrapperBase* ptr, int** macro_ids, int** macro_lines, double** macro_values,
                     int* length)
 {
+    *macro_ids    = nullptr;
+    *macro_lines  = nullptr;
+    *macro_values = nullptr;
+    *length       = 0;
     ptr->GetMacroValues(macro_ids, macro_lines, macro_values, length);
 }
 
 void GetLineMacroValues(AllAttributesParserWrapperBase* ptr, int macro_line, int** macro_ids, double** macro_values,
                         int* length)
 {
+    *macro_ids    = nullptr;
+    *macro_values = nullptr;
+    *length       = 0;
     ptr->GetLineMacroValues(macro_line, macro_ids, macro_values, length);
 }
 
@@ -108,6 +120,10 @@ void ResetMacroValues(AllAttributesParserWrapperBase* ptr)
 void GetPathValues(AllAttributesParserWrapperBase* ptr, PathResultWrapper*& path_result,
                    TimeResultWrapper*& time_result, WordResultRange** word_result_range, int* length, int* unit_system)
 {
+    path_result        = nullptr;
+    time_result        = nullptr;
+    *word_result_range = nullptr;
+    *length            = 0;
     ptr->GetPathValues(path_result, time_result, word_result_range, length, unit_system);
 }
 
@@ -144,18 +160,21 @@ void ResetPathValues(AllAttributesParserWrapperBase* ptr)
 bool ConvertLength(AllAttributesParserWrapperBase* ptr, int line, const char* data, WordValueWrapper** value,
                    int* length, char** message, bool single_line_msg, UnitConversionType conversion_type)
 {
+    clear(value, length, message);
     return ptr->ConvertLength(line, data, value, length, message, single_line_msg, conversion_type);
 }
 
 bool RemoveNumbering(AllAttributesParserWrapperBase* ptr, int line, const char* data, WordValueWrapper** value,
                      int* length, char** message, bool single_line_msg)
 {
+    clear(value, length, message);
     return ptr->RemoveNumbering(line, data, value, length, message, single_line_msg);
 }
 
 bool Renumber(AllAttributesParserWrapperBase* ptr, int line, const char* data, WordValueWrapper** value, int* length,
               char** message, bool single_line_msg, RenumberSettingsWrapper* renumber_settings)
 {
+    clear(value, length, message);
     RenumberSettings rs{};
     rs.word           = renumber_settings->word;
     rs.step           = renumber_settings->step;
@@ -180,6 +199,7 @@ void RenumberReset(AllAttributesParserWrapperBase* ptr)
 bool RotateAxes(AllAttributesParserWrapperBase* ptr, int line, const char* data, WordValueWrapper** value, int* length,
                 char** message, bool single_line_msg, AxesRotatingOption axes_rotating_options)
 {
+    clear(value, length, message);
     return ptr->RotateAxes(line, data, value, length, message, single_line_msg, axes_rotating_options);
 }
 
@@ -234,6 +254,9 @@ bool SplitFile(AllAttributesParserWrapperBase* ptr, FileSplittingWrapper* fsw, c
                int*               length,             // value[x][][]
                char** message, bool single_line_msg)
 {
+    clear(value, length, message);
+    *value_value_length = nullptr;
+    *value_length       = nullptr;
     return ptr->SplitFile(fsw, data, data_length, value, value_value_length, value_length, length, message,
                           single_line_msg);
 }
@@ -270,6 +293,9 @@ bool SplitFileString(AllAttributesParserWrapperBase* ptr, FileSplittingWrapper*
                      int*    length, // value[x][]
                      char** message, bool single_line_msg)
 {
+    *value   = nullptr;
+    *length  = 0;
+    *message = nullptr;
     return ptr->SplitFileString(fsw, data, data_length, value, length, message, single_line_msg);
 }
 
@@ -289,12 +315,14 @@ void DisposeSplitFileString(char** value, int length)
 bool RemoveComment(AllAttributesParserWrapperBase* ptr, int line, const char* data, WordValueWrapper** value,
                    int* length, char** message, bool single_line_msg)
 {
+    clear(value, length, message);
     return ptr->RemoveComment(line, data, value, length, message, single_line_msg);
 }
 
 bool RemoveOptionalBlock(AllAttributesParserWrapperBase* ptr, int line, const char* data, WordValueWrapper** value,
                          int* length, char** message, bool single_line_msg)
 {
+    clear(value, length, message);
     return ptr->RemoveOptionalBlock(line, data, value, length, message, single_line_msg);
 }
 
diff --git a/parser/WrapperResults.h b/parser/WrapperResults.h
new file mode 100644
index 0000000..3eedc7f
--- /dev/null
+++ b/parser/WrapperResults.h
@@ -0,0 +1,101 @@
+#pragma once
+
+#include <cstring>
+#include <memory>
+#include <string>
+#include <utility>
+
+#include "AllAttributesParserWrapperBase.h"
+
+namespace parser {
+
+// Owners of the results handed out through the C interface: a result is complete before the caller sees any part of it,
+// and whatever has been allocated is released if completing it fails.
+
+inline std::unique_ptr<char[]> make_c_string(const std::string& str)
+{
+    std::unique_ptr<char[]> ret(new char[str.size() + 1]);
+    memcpy(ret.get(), str.c_str(), str.size() + 1);
+    return ret;
+}
+
+inline std::unique_ptr<char[]> make_c_message(const std::string& msg)
+{
+    return msg.empty() ? nullptr : make_c_string(msg);
+}
+
+class WordValues
+{
+public:
+    explicit WordValues(size_t size)
+        : data(new WordValueWrapper[size]{})
+        , length(static_cast<int>(size))
+    {
+    }
+    ~WordValues()
+    {
+        DisposeWordValueWrapper(data, length);
+    }
+    WordValues(const WordValues&) = delete;
+    WordValues& operator=(const WordValues&) = delete;
+
+    WordValueWrapper& operator[](size_t x)
+    {
+        return data[x];
+    }
+    WordValueWrapper* release()
+    {
+        return std::exchange(data, nullptr);
+    }
+
+private:
+    WordValueWrapper* data;
+    int               length;
+};
+
+class Strings
+{
+public:
+    explicit Strings(size_t size)
+        : data(new char* [size] {})
+        , length(static_cast<int>(size))
+    {
+    }
+    ~Strings()
+    {
+        DisposeSplitFileString(data, length);
+    }
+    Strings(const Strings&) = delete;
+    Strings& operator=(const Strings&) = delete;
+
+    char*& operator[](size_t x)
+    {
+        return data[x];
+    }
+    char** release()
+    {
+        return std::exchange(data, nullptr);
+    }
+
+private:
+    char** data;
+    int    length;
+};
+
+struct PathValues
+{
+    PathValues() = default;
+    ~PathValues()
+    {
+        DisposePathValues(path_result, time_result, word_result_range, length);
+    }
+    PathValues(const PathValues&) = delete;
+    PathValues& operator=(const PathValues&) = delete;
+
+    PathResultWrapper* path_result{};
+    TimeResultWrapper* time_result{};
+    WordResultRange*   word_result_range{};
+    int                length{};
+};
+
+} // namespace parser
diff --git a/parser/fanuc/AllAttributesParserWrapper.cpp b/parser/fanuc/AllAttributesParserWrapper.cpp
index 4313529..8801f17 100644
--- a/parser/fanuc/AllAttributesParserWrapper.cpp
+++ b/parser/fanuc/AllAttributesParserWrapper.cpp
@@ -4,6 +4,7 @@
 
 #include "AllAttributesParser.h"
 #include "AllAttributesParserWrapper.h"
+#include "WrapperResults.h"
 
 namespace parser {
 namespace fanuc {
@@ -112,10 +113,7 @@ public:
         if (data.close_bracket)
             tmp += *data.close_bracket;
 
-        wordValue.value = new char[tmp.size() + 1];
-        if (!tmp.empty())
-            memcpy(wordValue.value, &tmp[0], tmp.size());
-        wordValue.value[tmp.size()] = 0;
+        wordValue.value = make_c_string(tmp).release();
     }
 
     void operator()(const StringAttributeData& data) const
@@ -143,42 +141,24 @@ public:
 private:
     void add_word(const std::string& word) const
     {
-        wordValue.word = new char[word.size() + 1];
-        if (!word.empty())
-            memcpy(wordValue.word, &word[0], word.size());
-        wordValue.word[word.size()] = 0;
+        wordValue.word = make_c_string(word).release();
     }
 
 private:
     WordValueWrapper& wordValue;
 };
 
-void fill_message(const std::string& msg, char** message)
-{
-    if (!msg.empty())
-    {
-        *message = new char[msg.size() + 1];
-        memcpy(*message, &msg[0], msg.size());
-        (*message)[msg.size()] = 0;
-    }
-}
-
-void fill_WordValueWrapper(const std::vector<AttributeVariant>& v, WordValueWrapper** value, int* length)
-{
-    if (!v.empty())
-    {
-        *value = new WordValueWrapper[v.size()];
-        for (size_t x = 0; x < v.size(); ++x)
-            boost::apply_visitor(Attributes2WordValueWrapperVisitor((*value)[x]), v[x]);
-        *length = static_cast<int>(v.size());
-    }
-}
-
 void fill_parsed_values(const std::string& msg, const std::vector<AttributeVariant>& v, WordValueWrapper** value,
                         int* length, char** message)
 {
-    fill_WordValueWrapper(v, value, length);
-    fill_message(msg, message);
+    auto       text = make_c_message(msg);
+    WordValues values(v.size());
+    for (size_t x = 0; x < v.size(); ++x)
+        boost::apply_visitor(Attributes2WordValueWrapperVisitor(values[x]), v[x]);
+
+    *value   = v.empty() ? nullptr : values.release();
+    *length  = static_cast<int>(v.size());
+    *message = text.release();
 }
 
 AllAttributesParserWrapper::AllAttributesParserWrapper(std::unique_ptr<AllAttributesParserBase> ptr)
@@ -200,28 +180,31 @@ bool AllAttributesParserWrapper::ParseValue(int line, const char* data, WordValu
 void AllAttributesParserWrapper::GetMacroValues(int** macro_ids, int** macro_lines, double** macro_values, int* length)
 {
     const auto& mv = dynamic_cast<AllAttributesParser*>(parser.get())->get_macro_values();
-    *length        = static_cast<int>(mv.size());
     if (mv.empty())
         return;
 
-    *macro_ids    = new int[mv.size()];
-    *macro_lines  = new int[mv.size()];
-    *macro_values = new double[mv.size()];
+    auto ids    = std::make_unique<int[]>(mv.size());
+    auto lines  = std::make_unique<int[]>(mv.size());
+    auto values = std::make_unique<double[]>(mv.size());
 
     int x = 0;
     for (const auto& item : mv)
     {
-        (*macro_ids)[x]    = item.first.id;
-        (*macro_lines)[x]  = item.first.line;
-        (*macro_values)[x] = item.second;
+        ids[x]    = item.first.id;
+        lines[x]  = item.first.line;
+        values[x] = item.second;
         ++x;
     }
+
+    *macro_ids    = ids.release();
+    *macro_lines  = lines.release();
+    *macro_values = values.release();
+    *length       = x;
 }
 
 void AllAttributesParserWrapper::GetLineMacroValues(int macro_line, int** macro_ids, double** macro_values, int* length)
 {
     const auto& mv = dynamic_cast<AllAttributesParser*>(parser.get())->get_macro_values();
-    *length        = 0;
     if (mv.empty())
         return;
 
@@ -235,17 +218,20 @@ void AllAttributesParserWrapper::GetLineMacroValues(int macro_line, int** macro_
     if (line_mv.empty())
         return;
 
-    *length       = static_cast<int>(line_mv.size());
-    *macro_ids    = new int[mv.size()];
-    *macro_values = new double[mv.size()];
+    auto ids    = std::make_unique<int[]>(line_mv.size());
+    auto values = std::make_unique<double[]>(line_mv.size());
 
     int x = 0;
     for (const auto& item : line_mv)
     {
-        (*macro_ids)[x]    = item.first.id;
-        (*macro_values)[x] = item.second;
+        ids[x]    = item.first.id;
+        values[x] = item.second;
         ++x;
     }
+
+    *macro_ids    = ids.release();
+    *macro_values = values.release();
+    *length       = x;
 }
 
 void AllAttributesParserWrapper::ResetMacroValues()
@@ -260,41 +246,37 @@ void convert(const T& value, S& prw)
     prw.work_motion = value.work_motion;
     prw.fast_motion = value.fast_motion;
     prw.tool_total  = value.tool_total;
-
-    size_t size = value.tool_id.size() + 1;
-    prw.tool_id = new char[size];
-    if (!value.tool_id.empty())
-        memcpy(prw.tool_id, &value.tool_id[0], value.tool_id.size());
-    prw.tool_id[size - 1] = 0;
+    prw.tool_id     = make_c_string(value.tool_id).release();
 }
 
 void AllAttributesParserWrapper::GetPathValues(PathResultWrapper*& path_result, TimeResultWrapper*& time_result,
                                                WordResultRange** word_result_range, int* length, int* unit_system)
 {
-    path_result = new PathResultWrapper{};
-    convert(parser->get_path_result(), *path_result);
+    PathValues values;
+    values.path_result = new PathResultWrapper{};
+    convert(parser->get_path_result(), *values.path_result);
 
-    time_result = new TimeResultWrapper{};
-    convert(parser->get_time_result(), *time_result);
+    values.time_result = new TimeResultWrapper{};
+    convert(parser->get_time_result(), *values.time_result);
 
     const auto& word_range_map = dynamic_cast<AllAttributesParser*>(parser.get())->get_word_range();
 
-    int cnt            = 0;
-    *word_result_range = new WordResultRange[word_range_map.size()];
+    values.word_result_range = new WordResultRange[word_range_map.size()]{};
     for (const auto& item : word_range_map)
     {
-        (*word_result_range)[cnt].word = new char[item.first.size() + 1];
-        memcpy((*word_result_range)[cnt].word, item.first.c_str(), item.first.size());
-        (*word_result_range)[cnt].word[item.first.size()] = 0;
-        const auto& [min, current, max]                   = item.second;
-        (*word_result_range)[cnt].value_min               = min;
-        (*word_result_range)[cnt].value                   = current;
-        (*word_result_range)[cnt].value_max               = max;
-        ++cnt;
+        auto& range          = values.word_result_range[values.length++];
+        range.word           = make_c_string(item.first).release();
+        const auto& [min, current, max] = item.second;
+        range.value_min      = min;
+        range.value          = current;
+        range.value_max      = max;
     }
 
-    *length      = static_cast<int>(word_range_map.size());
-    *unit_system = static_cast<int>(parser->get_unit_system());
+    path_result        = std::exchange(values.path_result, nullptr);
+    time_result        = std::exchange(values.time_result, nullptr);
+    *word_result_range = std::exchange(values.word_result_range, nullptr);
+    *length            = values.length;
+    *unit_system       = static_cast<int>(parser->get_unit_system());
 }
 
 bool AllAttributesParserWrapper::ConvertLength(int line, const char* data, WordValueWrapper** value, int* length,
@@ -370,24 +352,29 @@ bool AllAttributesParserWrapper::SplitFile(FileSplittingWrapper* fsw, const char
             cnt += ret_value[x][y].size();
     }
 
-    *value              = new WordValueWrapper[cnt];
-    *length             = static_cast<int>(ret_value.size());
-    *value_length       = new int[ret_value.size()];
-    *value_value_length = new int[cnt_value_length];
+    auto       text          = make_c_message(msg);
+    auto       lengths       = std::make_unique<int[]>(ret_value.size());
+    auto       value_lengths = std::make_unique<int[]>(cnt_value_length);
+    WordValues values(cnt);
 
     cnt = 0;
     int cnt2{};
     for (size_t x = 0; x < ret_value.size(); ++x)
     {
-        (*value_length)[x] = static_cast<int>(ret_value[x].size());
+        lengths[x] = static_cast<int>(ret_value[x].size());
         for (size_t y = 0; y < ret_value[x].size(); ++y, ++cnt2)
         {
-            (*value_value_length)[cnt2] = static_cast<int>(ret_value[x][y].size());
+            value_lengths[cnt2] = static_cast<int>(ret_value[x][y].size());
             for (size_t z = 0; z < ret_value[x][y].size(); ++z, ++cnt)
-                boost::apply_visitor(Attributes2WordValueWrapperVisitor((*value)[cnt]), ret_value[x][y][z]);
+                boost::apply_visitor(Attributes2WordValueWrapperVisitor(values[cnt]), ret_value[x][y][z]);
         }
     }
-    fill_message(msg, message);
+
+    *value              = values.release();
+    *value_value_length = value_lengths.release();
+    *value_length       = lengths.release();
+    *length             = static_cast<int>(ret_value.size());
+    *message            = text.release();
 
     return ret;
 }
@@ -457,8 +444,8 @@ bool AllAttributesParserWrapper::SplitFileString(FileSplittingWrapper* fsw, cons
     auto ret = dynamic_cast<AllAttributesParser*>(parser.get())
                    ->split_file(std::move(str_data), ret_value, msg, single_line_msg, file_splitting);
 
-    *value  = new char*[ret_value.size()];
-    *length = static_cast<int>(ret_value.size());
+    auto    text = make_c_message(msg);
+    Strings values(ret_value.size());
 
     for (size_t x = 0; x < ret_value.size(); ++x)
     {
@@ -474,10 +461,12 @@ bool AllAttributesParserWrapper::SplitFileString(FileSplittingWrapper* fsw, cons
             tmp += "\r\n";
         }
 
-        fill_message(tmp, &(*value)[x]);
+        values[x] = make_c_string(tmp).release();
     }
 
-    fill_message(msg, message);
+    *value   = values.release();
+    *length  = static_cast<int>(ret_value.size());
+    *message = text.release();
 
     return ret;
 }
diff --git a/parser/heidenhain/AllAttributesParserWrapper.cpp b/parser/heidenhain/AllAttributesParserWrapper.cpp
index 2714cb5..5b510db 100644
--- a/parser/heidenhain/AllAttributesParserWrapper.cpp
+++ b/parser/heidenhain/AllAttributesParserWrapper.cpp
@@ -4,6 +4,7 @@
 
 #include "AllAttributesParser.h"
 #include "AllAttributesParserWrapper.h"
+#include "WrapperResults.h"
 
 namespace parser {
 namespace heidenhain {
@@ -89,16 +90,6 @@ private:
     WordValueWrapper &wordValue;
 };*/
 
-void fill_message(const std::string& msg, char** message)
-{
-    if (!msg.empty())
-    {
-        *message = new char[msg.size() + 1];
-        memcpy(*message, &msg[0], msg.size());
-        (*message)[msg.size()] = 0;
-    }
-}
-
 void fill_WordValueWrapper(const std::vector<AttributeVariant>& v, WordValueWrapper** value, int* length)
 {
     /*if(!v.empty())
@@ -114,7 +105,7 @@ void fill_parsed_values(const std::string& msg, const std::vector<AttributeVaria
                         int* length, char** message)
 {
     fill_WordValueWrapper(v, value, length);
-    fill_message(msg, message);
+    *message = make_c_message(msg).release();
 }
 
 AllAttributesParserWrapper::AllAttributesParserWrapper(std::unique_ptr<AllAttributesParserBase> ptr)
@@ -200,22 +191,18 @@ void convert(const T& value, S& prw)
     prw.work_motion = value.work_motion;
     prw.fast_motion = value.fast_motion;
     prw.tool_total  = value.tool_total;
-
-    size_t size = value.tool_id.size() + 1;
-    prw.tool_id = new char[size];
-    if (!value.tool_id.empty())
-        memcpy(prw.tool_id, &value.tool_id[0], value.tool_id.size());
-    prw.tool_id[size - 1] = 0;
+    prw.tool_id     = make_c_string(value.tool_id).release();
 }
 
 void AllAttributesParserWrapper::GetPathValues(PathResultWrapper*& path_result, TimeResultWrapper*& time_result,
                                                WordResultRange** word_result_range, int* length, int* unit_system)
 {
-    path_result = new PathResultWrapper{};
-    convert(parser->get_path_result(), *path_result);
+    PathValues values;
+    values.path_result = new PathResultWrapper{};
+    convert(parser->get_path_result(), *values.path_result);
 
-    time_result = new TimeResultWrapper{};
-    convert(parser->get_time_result(), *time_result);
+    values.time_result = new TimeResultWrapper{};
+    convert(parser->get_time_result(), *values.time_result);
 
     /*const auto &word_range_map = dynamic_cast<AllAttributesParser*>(parser.get())->get_word_range();
 
@@ -234,8 +221,10 @@ void AllAttributesParserWrapper::GetPathValues(PathResultWrapper*& path_result,
     }
 
     *length = static_cast<int>(word_range_map.size());*/
-    *length      = 0;
     *unit_system = static_cast<int>(parser->get_unit_system());
+    path_result  = std::exchange(values.path_result, nullptr);
+    time_result  = std::exchange(values.time_result, nullptr);
+    *length      = 0;
 }
 
 bool AllAttributesParserWrapper::ConvertLength(int line, const char* data, WordValueWrapper** value, int* length,
@@ -311,10 +300,10 @@ bool AllAttributesParserWrapper::SplitFile(FileSplittingWrapper* fsw, const char
             cnt += ret_value[x][y].size();
     }
 
-    *value              = new WordValueWrapper[cnt];
-    *length             = static_cast<int>(ret_value.size());
-    *value_length       = new int[ret_value.size()];
-    *value_value_length = new int[cnt_value_length];
+    auto       text          = make_c_message(msg);
+    auto       lengths       = std::make_unique<int[]>(ret_value.size());
+    auto       value_lengths = std::make_unique<int[]>(cnt_value_length);
+    WordValues values(cnt);
 
     cnt = 0;
     /*int cnt2{};
@@ -328,7 +317,12 @@ bool AllAttributesParserWrapper::SplitFile(FileSplittingWrapper* fsw, const char
                 boost::apply_visitor(Attributes2WordValueWrapperVisitor((*value)[cnt]), ret_value[x][y][z]);
         }
     }*/
-    fill_message(msg, message);
+
+    *value              = values.release();
+    *value_value_length = value_lengths.release();
+    *value_length       = lengths.release();
+    *length             = static_cast<int>(ret_value.size());
+    *message            = text.release();
 
     return ret;
 }
@@ -397,8 +391,8 @@ bool AllAttributesParserWrapper::SplitFileString(FileSplittingWrapper* fsw, cons
     auto ret = dynamic_cast<AllAttributesParser*>(parser.get())
                    ->split_file(std::move(str_data), ret_value, msg, single_line_msg, file_splitting);
 
-    *value  = new char*[ret_value.size()];
-    *length = static_cast<int>(ret_value.size());
+    auto    text = make_c_message(msg);
+    Strings values(ret_value.size());
 
     for (size_t x = 0; x < ret_value.size(); ++x)
     {
@@ -414,10 +408,12 @@ bool AllAttributesParserWrapper::SplitFileString(FileSplittingWrapper* fsw, cons
             tmp += "\r\n";
         }
 
-        fill_message(tmp, &(*value)[x]);
+        values[x] = make_c_string(tmp).release();
     }
 
-    fill_message(msg, message);
+    *value   = values.release();
+    *length  = static_cast<int>(ret_value.size());
+    *message = text.release();
 
     return ret;
 }
-- 
2.43.0


From e3c8169dc95ff846449912a230505f5ec02e8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:11 +0000
Subject: [PATCH 14/25] fix: forget the spindle state when settings are applied

---
 parser/fanuc/AllAttributesParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 6657023..22c2a63 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -143,6 +143,7 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
     this->zero_point        = std::move(zero_point);
     active_word_grammar     = cnc_default_values.default_driver_units == EDriverUnits::Millimeter ? &word_grammar.metric
                                                                                                   : &word_grammar.imperial;
+    rotation_verifier       = RotationVerifier{};
     MachinePointsData machine_points_data_zero_point;
 
     const std::map<std::string, double> zero_point_axis_map = {
-- 
2.43.0


From cea8bcac5e1576f6bfe7efed98afbc97346e75ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:14 +0000
Subject: [PATCH 15/25] fix: copy axis values by a call, not from a destructor
 that must not throw

---
 parser/fanuc/AttributesPathCalculator.cpp | 28 +++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 31ab729..9d8a3f5 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -325,7 +325,7 @@ struct copy_on_return
     {
     }
 
-    ~copy_on_return()
+    void operator()() const
     {
         for (const auto& it : v)
         {
@@ -410,7 +410,7 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , active_g9091(this->cnc_default_values.default_programming)
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range}();
     for (const auto& it : kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
@@ -432,7 +432,7 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , active_g9091(this->cnc_default_values.default_programming)
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range}();
     for (const auto& it : kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
@@ -456,7 +456,7 @@ void AttributesPathCalculator::reset()
     active_helix     = EHelixType::None;
     active_t.clear();
     active_auto_rapid_traverse_after_tool_exchange = false;
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range}();
 }
 
 template <typename T, typename U>
@@ -568,9 +568,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(make_message(MessageName::TNotWithG, language, std::to_string(v)));
             }
 
-            copy_on_return cr{
+            copy_on_return{
                 active_g,   active_g9091, values, prev_values,
-                word_range, &other_g}; // save axis in case the start values are provided together with tool change
+                word_range, &other_g}(); // save axis in case the start values are provided together with tool change
             return;
         }
     }
@@ -610,9 +610,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 active_g9697 = *g9697;
             if (g_return)
                 active_g_return = *g_return;
-            copy_on_return cr{
+            copy_on_return{
                 active_g,   active_g9091, values, prev_values,
-                word_range, &other_g}; // save axis because here may be start values before any G code is being used
+                word_range, &other_g}(); // save axis because here may be start values before any G code is being used
             return;
         }
 
@@ -628,7 +628,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 active_g9697 = *g9697;
             if(g_return)
                 active_g_return = *g_return;
-            copy_on_return cr{active_g, active_g9091, values, prev_values, word_range, other_g}; // save axis because
+            copy_on_return{active_g, active_g9091, values, prev_values, word_range, other_g}(); // save axis because
         here may be start values together with other irrelevant G codes return; // skip other G codes and their axis
         values
         }*/
@@ -1346,15 +1346,15 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "S"));
 
     if (move_to_tool_exchange_point)
-        copy_on_return cr{
+        copy_on_return{
             active_g, EProgrammingType::Absolute, machine_points_data.tool_exchange_point, prev_values, word_range,
-            &other_g};
+            &other_g}();
     else if (move_to_machine_base_point)
-        copy_on_return cr{
+        copy_on_return{
             active_g, EProgrammingType::Absolute, machine_points_data.machine_base_point, prev_values, word_range,
-            &other_g};
+            &other_g}();
     else
-        copy_on_return cr{active_g, active_g9091, values, prev_values, word_range, &other_g};
+        copy_on_return{active_g, active_g9091, values, prev_values, word_range, &other_g}();
 }
 
 } // namespace fanuc
-- 
2.43.0


From a76e64488980b672bc158b602a13cb0bd609d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 16/25] fix: let the configuration tool fail without an
 unhandled error or staying marked as running

---
 vscode-client/src/extension.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 9a2d51f..d0eec8d 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -47,7 +47,6 @@ let ncprojChannel: OutputChannel;
 let cmtConfigRunning = false;
 const execShell = (cmd: string, options: cp.ExecOptions) =>
     new Promise<string>((resolve, reject) => {
-        cmtConfigRunning = true;
         cp.exec(cmd, options, (err, out) => {
             cmtConfigRunning = false;
             if (err) {
@@ -68,6 +67,7 @@ const execShell = (cmd: string, options: cp.ExecOptions) =>
             }
             return resolve(out);
         });
+        cmtConfigRunning = true;
     });
 
 function startLangServerIO(command: string, args: string[], cwd: string, documentSelector: string[]): LanguageClient {
@@ -354,7 +354,7 @@ function registerCmdNcsettingCreate(context: ExtensionContext) {
             window.showInformationMessage("Configuration window is already running!");
         } else {
             const options = { cwd: currentWorkingDirectory };
-            execShell(exeCmtconfigPath, options);
+            execShell(exeCmtconfigPath, options).catch((error) => console.log(error));
         }
     });
 
-- 
2.43.0


From 3831c030ed3d3550ba0d30bb3f0da2d1f5c51ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 17/25] fix: show the newest machine tool name, and the base
 name without its last extension only

---
 vscode-client/src/extension.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index d0eec8d..3d49841 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -142,8 +142,15 @@ async function startLangServerNCProj(executable: string, cwd: string) {
     afterStartLangServer(executable);
 }
 
+let lastStatusTextRead = 0;
+
 function setStatusText(ncsettingFilePath: string) {
+    const thisRead = ++lastStatusTextRead;
     fs.readFile(ncsettingFilePath, (err, data) => {
+        if (thisRead != lastStatusTextRead) {
+            // the file was read again meanwhile: this is its older content
+            return;
+        }
         let statusText: string;
         if (err) {
             console.log(err);
@@ -169,9 +176,7 @@ function setStatusText(ncsettingFilePath: string) {
 
 function stem(ncsettingFilePath: string) {
     const normalized = path.normalize(ncsettingFilePath);
-    const filename = path.basename(normalized);
-    const ext = path.extname(normalized);
-    return filename.replace(ext, "");
+    return path.basename(normalized, path.extname(normalized));
 }
 
 // i.e.: we can ignore changes when we know we'll be doing them prior to starting the language server.
-- 
2.43.0


From 4220afc2b6c794410207ada29b942cfe226f4035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 18/25] fix: restart the language server after every change of
 the settings, one restart after the other

---
 vscode-client/src/extension.ts | 49 +++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 3d49841..e10f3dd 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -32,12 +32,15 @@ import {
     OutputChannel,
 } from "vscode";
 import { LanguageClientOptions } from "vscode-languageclient";
-import { LanguageClient, ServerOptions } from "vscode-languageclient/node";
+import { LanguageClient, ServerOptions, State } from "vscode-languageclient/node";
 import * as cp from "child_process";
 import path = require("path");
 import fs = require("fs");
 
 let langServer: LanguageClient;
+let createLangServer: () => LanguageClient;
+let lastStart: Promise<unknown>;
+let nextRestart: Promise<boolean> | undefined;
 let currentWorkingDirectory: string;
 let exeSrvPath: string;
 let exeCmtconfigPath: string;
@@ -115,13 +118,22 @@ async function startLangServerNCProj(executable: string, cwd: string) {
         setStatusText(ncsettingFilePath);
     }
 
-    langServer = startLangServerIO(executable, args, cwd, ["ncproj"]);
+    createLangServer = () => startLangServerIO(executable, args, cwd, ["ncproj"]);
+    await startNewLangServer();
+
+    afterStartLangServer(executable);
+}
+
+async function startNewLangServer(): Promise<boolean> {
+    let started = true;
+    langServer = createLangServer();
 
     langServer.onDidChangeState((e) => {
         console.log(e);
     });
 
     await langServer.start().catch((error) => {
+        started = false;
         console.log(error);
         ncprojChannel.appendLine("Unable to start Language Server!");
         if (process.platform == "win32") {
@@ -139,7 +151,30 @@ async function startLangServerNCProj(executable: string, cwd: string) {
         ncprojChannel.show(true);
     });
 
-    afterStartLangServer(executable);
+    return started;
+}
+
+// A language client that is starting or stopping can't be restarted, therefore restarts are done one after the other.
+function restartLangServer(): Promise<boolean> {
+    if (!nextRestart) {
+        const restart = async () => {
+            nextRestart = undefined;
+            try {
+                if (langServer.state == State.Starting) {
+                    await langServer.start();
+                }
+                await langServer.restart();
+                return true;
+            } catch (error) {
+                console.log(error);
+                // A language client that failed to start can't be started again.
+                return await startNewLangServer();
+            }
+        };
+        nextRestart = lastStart.then(restart, restart);
+        lastStart = nextRestart;
+    }
+    return nextRestart;
 }
 
 let lastStatusTextRead = 0;
@@ -220,9 +255,11 @@ function startListeningConfigurationChanges() {
         watcher.onDidChange(async (uri) => {
             const normalized = path.normalize(ncsettingFilePath);
             if (uri.fsPath == Uri.file(normalized).fsPath) {
-                await langServer.restart();
+                const restarted = await restartLangServer();
                 setStatusText(normalized);
-                window.showInformationMessage("Changes to " + path.basename(uri.fsPath) + " have been loaded.");
+                if (restarted) {
+                    window.showInformationMessage("Changes to " + path.basename(uri.fsPath) + " have been loaded.");
+                }
             }
         });
     }
@@ -318,7 +355,7 @@ function setupPaths(context: ExtensionContext) {
 
 function startNclangsrv() {
     try {
-        startLangServerNCProj(exeSrvPath, currentWorkingDirectory);
+        lastStart = startLangServerNCProj(exeSrvPath, currentWorkingDirectory);
     } finally {
         startListeningConfigurationChanges();
     }
-- 
2.43.0


From 9d62533af434dafc74fbc753527ef4b857a39ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 19/25] fix: announce every change of the configuration once,
 whoever makes it

---
 vscode-client/src/extension.ts | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index e10f3dd..b1030e3 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -214,15 +214,8 @@ function stem(ncsettingFilePath: string) {
     return path.basename(normalized, path.extname(normalized));
 }
 
-// i.e.: we can ignore changes when we know we'll be doing them prior to starting the language server.
-let ignoreNextConfigurationChange = false;
-
 function startListeningConfigurationChanges() {
     workspace.onDidChangeConfiguration((event) => {
-        if (ignoreNextConfigurationChange) {
-            ignoreNextConfigurationChange = false;
-            return;
-        }
         for (const s of [
             "ncproj.debug.log.path",
             "ncproj.ncsetting.file.path",
@@ -265,6 +258,16 @@ function startListeningConfigurationChanges() {
     }
 }
 
+// The user is asked to reload the window when the change is noticed, like for every other change.
+async function updateConfiguration(configProperty: string, value: unknown, configurationTarget: ConfigurationTarget) {
+    try {
+        await workspace.getConfiguration("ncproj").update(configProperty, value, configurationTarget);
+    } catch (error) {
+        console.log(error);
+        window.showErrorMessage("Unable to change ncproj." + configProperty + ": " + error);
+    }
+}
+
 function askWhenNoNcsettingSpecified(askMessage: string) {
     const createNcsetting = "Create configuration";
     const selectNcsetting = "Select configuration";
@@ -302,14 +305,7 @@ function askFilePath(
                         if (selection == saveInUser) {
                             configurationTarget = ConfigurationTarget.Global;
                         }
-                        const config = workspace.getConfiguration("ncproj");
-                        ignoreNextConfigurationChange = true;
-                        config.update(configProperty, onfulfilled[0].fsPath, configurationTarget);
-                        askReloadWindow(
-                            'Please use the "Reload Window" action for setting ' +
-                                onfulfilled[0].fsPath +
-                                " to take effect."
-                        );
+                        updateConfiguration(configProperty, onfulfilled[0].fsPath, configurationTarget);
                     }
                 });
         }
@@ -408,9 +404,7 @@ function registerCmdTogglePathTimeCalculation(context: ExtensionContext) {
         const config = workspace.getConfiguration("ncproj");
         const calculatePathTime = config.get<boolean>("calculate.pathtime.enable");
 
-        ignoreNextConfigurationChange = true;
-        config.update("calculate.pathtime.enable", !calculatePathTime, ConfigurationTarget.Global);
-        askReloadWindow('Please use the "Reload Window" action for setting to take effect.');
+        updateConfiguration("calculate.pathtime.enable", !calculatePathTime, ConfigurationTarget.Global);
     });
 
     context.subscriptions.push(disposable);
-- 
2.43.0


From 1fd7027247e76c294919fe4b97023b4fb75fd957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:03 +0000
Subject: [PATCH 20/25] fix: start the configuration tool from a path with
 spaces too

---
 vscode-client/src/extension.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index b1030e3..772c837 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -392,7 +392,7 @@ function registerCmdNcsettingCreate(context: ExtensionContext) {
             window.showInformationMessage("Configuration window is already running!");
         } else {
             const options = { cwd: currentWorkingDirectory };
-            execShell(exeCmtconfigPath, options).catch((error) => console.log(error));
+            execShell('"' + exeCmtconfigPath + '"', options).catch((error) => console.log(error));
         }
     });
 
-- 
2.43.0


From 70961714263a22a1032112d69af60797cc23bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:34 +0000
Subject: [PATCH 21/25] fix: keep colons in the messages of diagnostics

---
 nclangsrv/JsonMessageHandler.cpp | 47 +++++++++++++-------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 654e262..0e30446 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -1171,34 +1171,25 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
             int32_t     character{};
             std::string result_message = error_message;
 
-            std::string              data;
-            std::vector<std::string> tokens;
-            std::stringstream        ss(error_message);
-            while (std::getline(ss, data, ':'))
-            {
-                boost::algorithm::trim(data);
-                tokens.push_back(data);
-                if (mLogger)
-                    LOGGER << "JsonMessageHandler::" << __func__ << ": [" << data << "]" << std::endl;
-            }
-
-            if (not tokens.empty())
-            {
-                line = atoi(tokens[0].c_str());
-                if (line > 0)
-                    line--;
-                if (tokens.size() > 2)
-                {
-                    character = atoi(tokens[1].c_str());
-                    if (character > 0)
-                        character--;
-                    result_message = tokens[2];
-                }
-                else if (tokens.size() > 1)
-                {
-                    result_message = tokens[1];
-                }
-            }
+            // [line: [character: ]]message, where the message can contain colons
+            const auto takePosition = [&](int32_t& position) {
+                const auto colon = result_message.find(':');
+                auto       token = result_message.substr(0, colon);
+                boost::algorithm::trim(token);
+                if (colon == std::string::npos or token.empty() or
+                    token.find_first_not_of("0123456789") != std::string::npos)
+                    return false;
+                position = atoi(token.c_str());
+                if (position > 0)
+                    position--;
+                result_message.erase(0, colon + 1);
+                return true;
+            };
+            if (takePosition(line))
+                takePosition(character);
+            else if (result_message.starts_with("ERROR:"))
+                result_message.erase(0, 6);
+            boost::algorithm::trim(result_message);
 
             if (line != 0 or character != 0 or not result_message.empty())
             {
-- 
2.43.0


From a722d515a18f44cd12962d08bedec712a78cf983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:35 +0000
Subject: [PATCH 22/25] fix: report errors at their own line, whatever the line
 contains

---
 nclangsrv/NCParser.cpp | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index 8958038..9f93831 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -393,7 +393,6 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
     size_t                   line_nbr{};
     size_t                   line_err{};
     std::string              text;
-    const std::string        line_str("line 1");
     double                   prev_time_total{};
     double                   total_work_motion_path{};
     double                   total_work_motion_time{};
@@ -439,26 +438,20 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         if (!ret)
         {
             ++line_err;
-            auto pos = message.find(line_str);
-            if (pos != std::string::npos)
+            if (message.empty())
             {
-                message.replace(pos, line_str.size(), "line " + std::to_string(line_nbr));
+                message = data;
+                message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
+            }
+            else if (const auto pos = message.find_first_not_of("0123456789");
+                     pos != 0 && pos != std::string::npos && message[pos] == ':')
+            {
+                // position within the line the parser was given
+                message = std::to_string(line_nbr) + message.substr(pos);
             }
             else
             {
-                if (message.empty())
-                {
-                    message = data;
-                    message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
-                }
-                else if (message[0] == '1')
-                {
-                    message = std::to_string(line_nbr) + message.substr(1);
-                }
-                else
-                {
-                    message = std::to_string(line_nbr) + ": " + message;
-                }
+                message = std::to_string(line_nbr) + ": " + message;
             }
             messages.push_back(message);
         }
-- 
2.43.0


From 7802e25b80117b7f5bf0975bde4fc5f8014b4af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:35 +0000
Subject: [PATCH 23/25] fix: describe the last variable of a range too

---
 nclangsrv/MacrosDescReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 6aeae97..00b0b4e 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -180,7 +180,7 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
 
     auto it = std::find_if(mRanges.cbegin(), mRanges.cend(),
-                           [&icode](const auto& r) { return icode > r.first.first and icode < r.first.second; });
+                           [&icode](const auto& r) { return icode >= r.first.first and icode <= r.first.second; });
     if (it != mRanges.cend())
     {
         if (mData.count(it->second))
-- 
2.43.0


From 8de22ba1c731d44f118eb3ef1defdf64df12fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:12 +0000
Subject: [PATCH 24/25] fix: keep the evaluated code until its parse error has
 been reported

---
 parser/fanuc/AllAttributesParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 22c2a63..f9427bb 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -214,6 +214,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
     bool              evaluated_code_part{};
     pos_iterator_type position_begin(data.cbegin()), iter = position_begin, position_end(data.cend());
     pos_iterator_type position_begin2;
+    std::string       evaluated_code; // what position_begin2 and a parse error refer to
 
     try
     {
@@ -236,7 +237,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
 
         std::vector<AttributeVariant> value2;
 
-        auto evaluated_code =
+        evaluated_code =
             MacroEvaluatedCodeVerifier()(allowed_operations, macro_values, line, value, other_settings.language);
         if (!evaluated_code.empty())
         {
-- 
2.43.0


From fc5f523d06efd217c408cc17bea2110c6d3f89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:46 +0000
Subject: [PATCH 25/25] fix: release the words of the last line of an analysis

---
 parser/GeneralParserDefines.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/GeneralParserDefines.h b/parser/GeneralParserDefines.h
index 49c96d4..358d945 100644
--- a/parser/GeneralParserDefines.h
+++ b/parser/GeneralParserDefines.h
@@ -12,6 +12,8 @@ namespace parser {
 
 class AttributeVariantData
 {
+public:
+    virtual ~AttributeVariantData() = default;
 };
 
 enum class ECncType
-- 
2.43.0

