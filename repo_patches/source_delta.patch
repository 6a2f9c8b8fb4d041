From 085e26e0b001c8ea642783e6679ebbbf5be1fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 001/111] fix: pretransfer: do not treat escaped characters
 inside lexical units as delimiters

---
 apertium/pretransfer.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index deb1be7..257a272 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -91,6 +91,22 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
       exit(EXIT_FAILURE);
     }
 
+    if(mychar == '\\')
+    {
+      // an escaped character is never a delimiter
+      if(buffer_mode)
+      {
+        buffer += mychar;
+        buffer += input.get();
+      }
+      else
+      {
+        u_fputc(mychar, output);
+        u_fputc(input.get(), output);
+      }
+      continue;
+    }
+
     switch(mychar)
     {
     case '<':
-- 
2.43.0


From dcd47d8ab98600552814193422a3161b5c9ae536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 002/111] fix: pretransfer: stop at end of input while skipping
 a surface form

---
 apertium/pretransfer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index 257a272..b91e043 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -79,6 +79,10 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
   if(surface_forms)
   {
     while((mychar = input.get()) != '/') {
+      if (input.eof()) {
+        std::cerr << "ERROR: Unexpected EOF" << std::endl;
+        exit(EXIT_FAILURE);
+      }
       if (mychar == '\\') input.get();
     }
   }
-- 
2.43.0


From 367fb02b186d8c2fe95ca0a7ddd8d58841587c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 003/111] fix: pretransfer: keep '~' after tags unless it is a
 compound separator

---
 apertium/pretransfer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index b91e043..26747c9 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -137,7 +137,7 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
     if(buffer_mode)
     {
       if((mychar != '+' || (mychar == '+' && in_tag == true)) &&
-         (mychar != '~' || (mychar == '~' && in_tag == true)))
+         (mychar != '~' || in_tag == true || compound_sep == false))
       {
         buffer += mychar;
       }
-- 
2.43.0


From aaff729f594453e9594d4dedd89fc6e1d72fb1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 004/111] fix: pretransfer: '#' inside a tag does not start a
 lemma queue

---
 apertium/pretransfer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index 26747c9..9affe3a 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -126,7 +126,7 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
       break;
 
     case '#':
-      if(buffer_mode)
+      if(buffer_mode && !in_tag)
       {
         buffer_mode = false;
         queuing = true;
-- 
2.43.0


From 88c4a5f7bad40c64757861d2f0986d9fabe650ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 005/111] fix: cleanstream: read word-bound blanks as a whole

---
 apertium/apertium_cleanstream.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium_cleanstream.cc b/apertium/apertium_cleanstream.cc
index 444bfb8..07a4d72 100644
--- a/apertium/apertium_cleanstream.cc
+++ b/apertium/apertium_cleanstream.cc
@@ -87,7 +87,12 @@ main (int argc, char** argv)
       buf += c;
     } else if(!intoken && c == '[') {
       u_fputc(ws, output);
-      blanktmp = input.readBlock('[', ']');
+      if (input.peek() == '[') {
+        input.get();
+        blanktmp = input.finishWBlank();
+      } else {
+        blanktmp = input.readBlock('[', ']');
+      }
       if(keepblank) {
         write(blanktmp, output);
       }
-- 
2.43.0


From 184ac68e9236ae2b4c21cc60fced1e01ca8f7592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 006/111] fix: wblank-attach: forget open spans at a null flush

---
 apertium/wblank-attach.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index e379ad9..e0d5afa 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -78,7 +78,8 @@ int main(int argc, char* argv[]) {
 		}
 
 		if (c == '\0') {
-			in_token = in_blank = false;
+			in_token = in_blank = in_wblank = false;
+			wb_stack.clear();
 			if (!wbs.empty()) {
 				std::cerr << "tf-apertium-spread warning: Null-flush found, but had open word-bound blanks on line " << line << ":";
 				for (auto& wb : wbs) {
-- 
2.43.0


From 9c172a7d16050cd409728215abc5227f3a1fa1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 007/111] fix: wblank-attach: keep escapes inside word-bound
 blanks

---
 apertium/wblank-attach.cc | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index e0d5afa..99ea299 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -50,7 +50,6 @@ int main(int argc, char* argv[]) {
 	std::vector<std::string> wbs;
 	std::vector<size_t> wb_stack;
 	std::string blank;
-	std::string unesc;
 
 	bool in_token = false;
 	bool in_blank = false;
@@ -68,7 +67,6 @@ int main(int argc, char* argv[]) {
 			if (in_blank) {
 				blank += c;
 				blank += n;
-				unesc += n;
 			}
 			else {
 				std::cout.put(c);
@@ -92,7 +90,6 @@ int main(int argc, char* argv[]) {
 				std::cerr << "tf-apertium-spread warning: Null-flush found, but had an open blank on line " << line << std::endl;
 				std::cout << blank;
 				blank.clear();
-				unesc.clear();
 			}
 			std::cout.put(c);
 			std::cout.flush();
@@ -130,7 +127,6 @@ int main(int argc, char* argv[]) {
 
 		if (in_blank) {
 			blank += c;
-			unesc += c;
 		}
 		else {
 			std::cout.put(c);
@@ -153,17 +149,18 @@ int main(int argc, char* argv[]) {
 				}
 			}
 			else if (blank[0] == '[' && blank[1] == '[') {
-				blank.assign(unesc.begin() + 2, unesc.end() - 2);
+				// keep escapes, the marks are output again
+				blank = blank.substr(2, blank.size() - 4);
 				wb_stack.push_back(0);
 				size_t b = 0;
 				while (b < blank.size()) {
 					size_t e = blank.find(';', b);
-					unesc.assign(blank, b, e - b);
-					trim_wb(unesc);
+					std::string wb(blank, b, e - b);
+					trim_wb(wb);
 					// Deduplicate
-					if (!unesc.empty() && std::find(wbs.begin(), wbs.end(), unesc) == wbs.end()) {
+					if (!wb.empty() && std::find(wbs.begin(), wbs.end(), wb) == wbs.end()) {
 						++wb_stack.back();
-						wbs.push_back(unesc);
+						wbs.push_back(wb);
 					}
 					b = std::max(e, e + 1);
 				}
@@ -173,7 +170,6 @@ int main(int argc, char* argv[]) {
 				std::cout << blank;
 			}
 			blank.clear();
-			unesc.clear();
 		}
 	}
 
-- 
2.43.0


From 7bccdde3d65414ff8795610c7ed79cf17d8d0414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 008/111] fix: wblank tools: do not output a stray byte for a
 backslash at end of input

---
 apertium/wblank-attach.cc | 2 +-
 apertium/wblank-detach.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index 99ea299..39543a3 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -62,7 +62,7 @@ int main(int argc, char* argv[]) {
 			++line;
 		}
 
-		if (c == '\\' && std::cin.peek()) {
+		if (c == '\\' && std::cin.peek() > 0) {
 			auto n = static_cast<char>(std::cin.get());
 			if (in_blank) {
 				blank += c;
diff --git a/apertium/wblank-detach.cc b/apertium/wblank-detach.cc
index ab22d5a..fbb1bef 100644
--- a/apertium/wblank-detach.cc
+++ b/apertium/wblank-detach.cc
@@ -43,7 +43,7 @@ int main(int argc, char* argv[]) {
 
 	char c = 0;
 	while (std::cin.get(c)) {
-		if (c == '\\' && std::cin.peek()) {
+		if (c == '\\' && std::cin.peek() > 0) {
 			auto n = static_cast<char>(std::cin.get());
 			if (in_blank) {
 				blank += c;
-- 
2.43.0


From 5836778ba28006ac9848f1fa940c7a0f71b44d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 009/111] fix: transfer: a rule that rejects itself no longer
 duplicates the blanks of its match

---
 apertium/interchunk.cc    |  1 +
 apertium/postchunk.cc     |  1 +
 apertium/transfer.cc      |  1 +
 apertium/transfer_base.cc | 16 ++++++++++++++--
 apertium/transfer_base.h  |  1 +
 5 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index dcc1bba..55c2734 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -612,6 +612,7 @@ Interchunk::applyRule()
   }
 
   int words_to_consume = processRule(lastrule);
+  flushBlanks(words_to_consume, last_lword);
   lastrule = NULL;
 
   if(word)
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 5189c7b..0f30498 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -699,6 +699,7 @@ Postchunk::applyRule()
   }
 
   int words_to_consume = processRule(lastrule);
+  flushBlanks(words_to_consume, 1);
   lastrule = NULL;
 
   if(word)
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 3b8a585..b8212fb 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -1350,6 +1350,7 @@ Transfer::applyRule()
   }
 
   words_to_consume = processRule(lastrule);
+  flushBlanks(words_to_consume, last_lword);
   lastrule = NULL;
 
   if(word)
diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index a5403ef..c297309 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -262,14 +262,26 @@ TransferBase::processRule(xmlNode* localroot)
       break;
     }
   }
+  return words_to_consume;
+}
+
+void
+TransferBase::flushBlanks(int words_to_consume, size_t matched_words)
+{
+  // blanks after the last consumed word will be read again
+  size_t reread = 0;
+  if (words_to_consume == 0) {
+    reread = blank_queue.size();
+  } else if (words_to_consume > 0 && (size_t) words_to_consume < matched_words) {
+    reread = matched_words - words_to_consume;
+  }
   // flush remaining non-space blanks
   while (!blank_queue.empty()) {
-    if (blank_queue.front() != " "_u) {
+    if (blank_queue.size() > reread && blank_queue.front() != " "_u) {
       write(blank_queue.front(), output);
     }
     blank_queue.pop();
   }
-  return words_to_consume;
 }
 
 int
diff --git a/apertium/transfer_base.h b/apertium/transfer_base.h
index d0a55a9..0bd7343 100644
--- a/apertium/transfer_base.h
+++ b/apertium/transfer_base.h
@@ -81,6 +81,7 @@ protected:
   virtual UString processChunk(xmlNode* element) = 0;
 
   int processRule(xmlNode* localroot);
+  void flushBlanks(int words_to_consume, size_t matched_words);
   int processInstruction(xmlNode* localroot);
   int processRejectCurrentRule(xmlNode* localroot);
   int processChoose(xmlNode* localroot);
-- 
2.43.0


From ef4f1535e88f5330214b8d32cd434f7a07b8a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 010/111] fix: postchunk: keep blanks before the first and
 after the last word of a chunk in place

---
 apertium/postchunk.cc | 33 ++++++++++++++++++++++++++-------
 apertium/postchunk.h  |  2 ++
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 0f30498..86e3f22 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -229,10 +229,20 @@ Postchunk::processChunk(xmlNode* element)
   return ""_u; // make the type checker happy
 }
 
+void
+Postchunk::writeLeadingBlank()
+{
+  if (!leading_blank.empty()) {
+    write(leading_blank, output);
+    leading_blank.clear();
+  }
+}
+
 void
 Postchunk::processOut(xmlNode *localroot)
 {
   in_out = true;
+  writeLeadingBlank();
 
   for (auto i : children(localroot)) {
     if(!xmlStrcmp(i->name, (const xmlChar *) "lu")) {
@@ -683,6 +693,8 @@ Postchunk::applyRule()
 {
   UString const chunk = *tmpword[0];
   tmpword.clear();
+  tmpblank.clear();
+  tmpblank.push_back(new UString()); // blanks before the first word
   splitWordsAndBlanks(chunk, tmpword, tmpblank);
 
   word = new InterchunkWord *[tmpword.size()+1];
@@ -698,7 +710,16 @@ Postchunk::applyRule()
     word[i] = new InterchunkWord(*tmpword[i-1]);
   }
 
+  leading_blank = *tmpblank[0];
+  if (!tmpword.empty() && tmpblank.size() > tmpword.size()) {
+    blank_queue.push(*tmpblank.back()); // blanks after the last word
+  }
+
   int words_to_consume = processRule(lastrule);
+  if (words_to_consume != 0) {
+    writeLeadingBlank();
+  }
+  leading_blank.clear();
   flushBlanks(words_to_consume, 1);
   lastrule = NULL;
 
@@ -712,13 +733,11 @@ Postchunk::applyRule()
   }
   word = NULL;
 
-  for(unsigned int i = 0, limit = tmpword.size(); i != limit; i++)
-  {
-    if(i != 0)
-    {
-      delete tmpblank[i];
-    }
-    delete tmpword[i];
+  for (auto& it : tmpblank) {
+    delete it;
+  }
+  for (auto& it : tmpword) {
+    delete it;
   }
   tmpword.clear();
   tmpblank.clear();
diff --git a/apertium/postchunk.h b/apertium/postchunk.h
index 3dda423..ed81fca 100644
--- a/apertium/postchunk.h
+++ b/apertium/postchunk.h
@@ -36,6 +36,7 @@ private:
   map <UString, UString> var_out_wblank;
 
   bool inword = false;
+  UString leading_blank;
 
   UString evalCachedString(xmlNode* element);
   void processClip(xmlNode* element);
@@ -48,6 +49,7 @@ private:
   UString processChunk(xmlNode* element);
 
   void processLet(xmlNode *localroot);
+  void writeLeadingBlank();
   void processOut(xmlNode *localroot);
   void processCallMacro(xmlNode *localroot);
   void processModifyCase(xmlNode *localroot);
-- 
2.43.0


From b90927779ca7b942334f9aa2a41ebd5255b38bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 011/111] fix: postchunk: apply dictionary-case mode to chunks
 with a rule as well

---
 apertium/postchunk.cc | 4 ++--
 apertium/postchunk.h  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 86e3f22..10415a4 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -989,11 +989,11 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
   bool uppercase_first = false;
   bool lastblank = true;
 
-  if(case_info == "AA"_u)
+  if(!dictionary_case && case_info == "AA"_u)
   {
     uppercase_all = true;
   }
-  else if(case_info == "Aa"_u)
+  else if(!dictionary_case && case_info == "Aa"_u)
   {
     uppercase_first = true;
   }
diff --git a/apertium/postchunk.h b/apertium/postchunk.h
index ed81fca..f15def5 100644
--- a/apertium/postchunk.h
+++ b/apertium/postchunk.h
@@ -64,9 +64,9 @@ private:
   static vector<UString> getVecTags(UString const &chunk);
   static int beginChunk(UString const &chunk);
   static int endChunk(UString const &chunk);
-  static void splitWordsAndBlanks(UString const &chunk,
-				  vector<UString *> &words,
-				  vector<UString *> &blanks);
+  void splitWordsAndBlanks(UString const &chunk,
+			   vector<UString *> &words,
+			   vector<UString *> &blanks);
   static UString pseudolemma(UString const &chunk);
   static UString wordzero(UString const &chunk);
   bool checkIndex(xmlNode *element, int index, int limit);
-- 
2.43.0


From b9940d29e48c0bca8459f7ab5df18a553e6ebd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 012/111] fix: transfer: leave lexical-unit mode at the end of
 an mlu

---
 apertium/transfer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index b8212fb..3f0783e 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -362,6 +362,8 @@ Transfer::processMlu(xmlNode* element)
 	value.append(myword);
   }
 
+  in_lu = false;
+
   if(last_lword == 1) {
     out_wblank = word[0]->getWblank();
   }
-- 
2.43.0


From bb41f3deae1b8113bab08ebe8e579fe6fc144ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 013/111] fix: interchunk: the lemma of a chunk without tags
 does not run into its contents

---
 apertium/interchunk_word.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/interchunk_word.cc b/apertium/interchunk_word.cc
index 14a27b3..d8b65dc 100644
--- a/apertium/interchunk_word.cc
+++ b/apertium/interchunk_word.cc
@@ -115,7 +115,9 @@ InterchunkWord::chunkPart(ApertiumRE const &part)
   }
   else if(result.size() == chunk.size())
   {
-    return part.match(chunk+queue);
+    // the whole chunk head: "whole" also covers the contents
+    UString whole = part.match(chunk+queue);
+    return whole.size() == chunk.size()+queue.size() ? whole : result;
   }
   else
   {
-- 
2.43.0


From 099a08190aa19b8c4e1e332494482efa5d05fef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 014/111] fix: transfer stages: stop at end of input inside
 brackets

---
 apertium/interchunk.cc    | 6 ++++++
 apertium/postchunk.cc     | 6 ++++++
 apertium/transfer.cc      | 5 +++++
 apertium/transfer_mult.cc | 4 ++++
 4 files changed, 21 insertions(+)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index 55c2734..a277586 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -386,6 +386,9 @@ Interchunk::readToken(InputFile& in)
       while(true)
       {
         UChar32 val2 = in.get();
+        if(in.eof()) {
+          break;
+        }
         if(val2 == '\\') {
           content += '\\';
           content += in.get();
@@ -401,6 +404,9 @@ Interchunk::readToken(InputFile& in)
       content += '{';
       while(true) {
         UChar32 val2 = in.get();
+        if(in.eof()) {
+          break;
+        }
         if(val2 == '\\') {
           content += '\\';
           content += in.get();
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 10415a4..9c0ee7e 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -490,6 +490,9 @@ Postchunk::readToken(InputFile& in)
       while(true)
       {
         UChar32 val2 = in.get();
+        if(in.eof()) {
+          break;
+        }
         if(val2 == '\\') {
           content += '\\';
           content += in.get();
@@ -506,6 +509,9 @@ Postchunk::readToken(InputFile& in)
       content += '{';
       while(true) {
         UChar32 val2 = in.get();
+        if(in.eof()) {
+          break;
+        }
         if(val2 == '\\') {
           content += '\\';
           content += in.get();
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 3f0783e..3fb8345 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -814,6 +814,11 @@ Transfer::readToken(InputFile& in)
       while(true)
       {
         UChar32 val3 = in.get();
+        if(in.eof())
+        {
+          in_wblank = false;
+          return input_buffer.add(TransferToken(content, tt_eof));
+        }
         if(val3 == '\\')
         {
           content += '\\';
diff --git a/apertium/transfer_mult.cc b/apertium/transfer_mult.cc
index b28c4f0..3843315 100644
--- a/apertium/transfer_mult.cc
+++ b/apertium/transfer_mult.cc
@@ -171,6 +171,10 @@ TransferMult::readToken(InputFile& in)
       while(true)
       {
         UChar32 val2 = in.get();
+	if(in.eof())
+	{
+	  break;
+	}
 	if(val2 == '\\')
 	{
 	  content += '\\';
-- 
2.43.0


From f84b0c78ced07351dffa2df93afd103b8d94a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 015/111] fix: transfer, postchunk: forget the word-bound
 blanks of variables at a null flush

---
 apertium/postchunk.cc | 1 +
 apertium/transfer.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 9c0ee7e..ab7359f 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -555,6 +555,7 @@ Postchunk::postchunk_wrapper_null_flush(InputFile& in, UFILE* out)
     u_fputc('\0', out);
     u_fflush(out);
     variables = variable_defaults;
+    var_out_wblank.clear();
   }
 
   internal_null_flush = false;
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 3fb8345..62e339e 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -915,6 +915,7 @@ Transfer::tmp_clear()
   tmpblank.clear();
   tmpword.clear();
   variables = variable_defaults;
+  var_out_wblank.clear();
 }
 
 void
-- 
2.43.0


From 7f5686992040dbd9100745a5939470c429befe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 016/111] fix: transfer stages: after a rule that shifts, look
 for the next match where it stopped

---
 apertium/interchunk.cc | 1 +
 apertium/postchunk.cc  | 1 +
 apertium/transfer.cc   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index a277586..414cf26 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -507,6 +507,7 @@ Interchunk::interchunk(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index ab7359f..296f8ed 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -613,6 +613,7 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 62e339e..64e821e 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -1030,6 +1030,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
-- 
2.43.0


From 5adb5d85e8af133e4afe53f73be64d83316599a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 017/111] fix: attribute regexes: escape every character
 special to the regex engine

---
 apertium/transfer_regex.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/apertium/transfer_regex.cc b/apertium/transfer_regex.cc
index 6698254..894613b 100644
--- a/apertium/transfer_regex.cc
+++ b/apertium/transfer_regex.cc
@@ -1,4 +1,5 @@
 #include <transfer_regex.h>
+#include <cstring>
 
 struct TrieNode {
   UChar32 c;
@@ -43,6 +44,13 @@ add_entry(TrieNode* root, const std::vector<int32_t>& vec)
   cur->end = true;
 }
 
+static bool
+is_special(UChar32 c)
+{
+  // characters with a meaning in a regular expression or a set
+  return c != 0 && c < 128 && strchr("\\^$.|?*+()[]{}-&", (char) c) != nullptr;
+}
+
 UString
 unbuildTrie(TrieNode* root)
 {
@@ -52,7 +60,7 @@ unbuildTrie(TrieNode* root)
   int single_count = 0;
   for (auto it : root->next) {
     if (it->end && it->next.empty()) {
-      if (it->c == '+' || it->c == '*' || it->c == '?' || it->c == '.') {
+      if (is_special(it->c)) {
         single += '\\';
       }
       single += it->c;
@@ -70,7 +78,7 @@ unbuildTrie(TrieNode* root)
     }
   }
   UString ret;
-  if (root->c == '+' || root->c == '*' || root->c == '?' || root->c == '.') {
+  if (is_special(root->c)) {
     ret += '\\';
   }
   ret += root->c;
-- 
2.43.0


From 7407ea4f4e8b70e215ede5ed9d58c397abce17e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 018/111] fix: attribute regexes: keep characters outside the
 BMP

---
 apertium/transfer_regex.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/apertium/transfer_regex.cc b/apertium/transfer_regex.cc
index 894613b..7c5012e 100644
--- a/apertium/transfer_regex.cc
+++ b/apertium/transfer_regex.cc
@@ -51,6 +51,17 @@ is_special(UChar32 c)
   return c != 0 && c < 128 && strchr("\\^$.|?*+()[]{}-&", (char) c) != nullptr;
 }
 
+static void
+append_char(UString& str, UChar32 c)
+{
+  if (c > 0xFFFF) {
+    str += U16_LEAD(c);
+    str += U16_TRAIL(c);
+  } else {
+    str += c;
+  }
+}
+
 UString
 unbuildTrie(TrieNode* root)
 {
@@ -63,7 +74,7 @@ unbuildTrie(TrieNode* root)
       if (is_special(it->c)) {
         single += '\\';
       }
-      single += it->c;
+      append_char(single, it->c);
       single_count++;
     } else {
       groups.push_back(unbuildTrie(it));
@@ -81,7 +92,7 @@ unbuildTrie(TrieNode* root)
   if (is_special(root->c)) {
     ret += '\\';
   }
-  ret += root->c;
+  append_char(ret, root->c);
   if (groups.empty()) {
     return ret;
   } else if (groups.size() == 1) {
-- 
2.43.0


From e2da21f7394f8bd2e19f1de7371c1c7e4700b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 019/111] fix: transfer stages: caseless tests on empty strings
 no longer depend on uninitialised memory

---
 apertium/transfer_base.cc | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index c297309..419e954 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -6,6 +6,13 @@
 
 using namespace std;
 
+// StringUtils::tolower() does not handle the empty string
+static UString
+lowercase(const UString& str)
+{
+  return str.empty() ? str : StringUtils::tolower(str);
+}
+
 TransferBase::TransferBase()
 {}
 
@@ -103,7 +110,7 @@ TransferBase::read(const char* transferfile, const char* datafile)
     {
       UString const cad_v = Compression::string_read(in);
       lists[cad_k].insert(cad_v);
-      listslow[cad_k].insert(StringUtils::tolower(cad_v));
+      listslow[cad_k].insert(lowercase(cad_v));
     }
   }
 }
@@ -522,8 +529,8 @@ TransferBase::processBeginsWith(xmlNode* localroot)
 {
   auto ch = twoChildren(localroot);
   if (getattr(localroot, "caseless") == "yes"_u) {
-    return beginsWith(StringUtils::tolower(evalString(ch.first)),
-                      StringUtils::tolower(evalString(ch.second)));
+    return beginsWith(lowercase(evalString(ch.first)),
+                      lowercase(evalString(ch.second)));
   } else {
     return beginsWith(evalString(ch.first), evalString(ch.second));
   }
@@ -537,7 +544,7 @@ TransferBase::processBeginsWithList(xmlNode* localroot)
   UString idlist = getattr(ch.second, "n");
   bool caseless = (getattr(localroot, "caseless") == "yes"_u);
   if (caseless) {
-    needle = StringUtils::tolower(needle);
+    needle = lowercase(needle);
   }
   for (auto it : (caseless ? listslow[idlist] : lists[idlist])) {
     if (beginsWith(needle, it)) {
@@ -552,8 +559,8 @@ TransferBase::processEndsWith(xmlNode* localroot)
 {
   auto ch = twoChildren(localroot);
   if (getattr(localroot, "caseless") == "yes"_u) {
-    return endsWith(StringUtils::tolower(evalString(ch.first)),
-                    StringUtils::tolower(evalString(ch.second)));
+    return endsWith(lowercase(evalString(ch.first)),
+                    lowercase(evalString(ch.second)));
   } else {
     return endsWith(evalString(ch.first), evalString(ch.second));
   }
@@ -567,7 +574,7 @@ TransferBase::processEndsWithList(xmlNode* localroot)
   UString idlist = getattr(ch.second, "n");
   bool caseless = (getattr(localroot, "caseless") == "yes"_u);
   if (caseless) {
-    needle = StringUtils::tolower(needle);
+    needle = lowercase(needle);
   }
   for (auto it : (caseless ? listslow[idlist] : lists[idlist])) {
     if (endsWith(needle, it)) {
@@ -582,7 +589,7 @@ TransferBase::processContainsSubstring(xmlNode* localroot)
 {
   auto ch = twoChildren(localroot);
   if (getattr(localroot, "caseless") == "yes"_u) {
-    return StringUtils::tolower(evalString(ch.first)).find(StringUtils::tolower(evalString(ch.second))) != UString::npos;
+    return lowercase(evalString(ch.first)).find(lowercase(evalString(ch.second))) != UString::npos;
   } else {
     return evalString(ch.first).find(evalString(ch.second)) != UString::npos;
   }
@@ -593,7 +600,7 @@ TransferBase::processEqual(xmlNode* localroot)
 {
   auto ch = twoChildren(localroot);
   if (getattr(localroot, "caseless") == "yes"_u) {
-    return StringUtils::tolower(evalString(ch.first)) == StringUtils::tolower(evalString(ch.second));
+    return lowercase(evalString(ch.first)) == lowercase(evalString(ch.second));
   } else {
     return evalString(ch.first) == evalString(ch.second);
   }
@@ -607,7 +614,7 @@ TransferBase::processIn(xmlNode* localroot)
   UString idlist = getattr(ch.second, "n");
   if (getattr(localroot, "caseless") == "yes"_u) {
     set<UString>& myset = listslow[idlist];
-    return (myset.find(StringUtils::tolower(sval)) != myset.end());
+    return (myset.find(lowercase(sval)) != myset.end());
   } else {
     set<UString>& myset = lists[idlist];
     return (myset.find(sval) != myset.end());
-- 
2.43.0


From a31a970a16ba042620ade78030f1ad52bcf0536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 020/111] fix: postchunk: keep the last character before the
 end of a chunk

---
 apertium/postchunk.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 296f8ed..9f50df0 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -848,7 +848,7 @@ Postchunk::beginChunk(UString const &chunk)
 int
 Postchunk::endChunk(UString const &chunk)
 {
-  return chunk.size()-2;
+  return chunk.size()-1;
 }
 
 UString
-- 
2.43.0


From 087ca6c8d0e2e845a154cd70b40e786091e87c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 021/111] fix: interchunk, postchunk: check word positions
 before assigning to them

---
 apertium/interchunk.cc | 9 +++++++--
 apertium/postchunk.cc  | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index 414cf26..08891c6 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -219,7 +219,7 @@ Interchunk::processLet(xmlNode *localroot)
         return;
 
       case ti_clip_tl:
-      {
+      if (checkIndex(leftSide, ti.getPos(), lword)) {
         bool match = word[ti.getPos()]->setChunkPart(attr_items[ti.getContent()], evalString(rightSide));
         if(!match && trace)
         {
@@ -255,7 +255,9 @@ Interchunk::processLet(xmlNode *localroot)
       }
     }
 
-
+    if (!checkIndex(leftSide, pos, lword)) {
+      return;
+    }
     bool match = word[pos]->setChunkPart(attr_items[part],
 					 evalString(rightSide));
     if(!match && trace)
@@ -300,6 +302,9 @@ Interchunk::processModifyCase(xmlNode *localroot)
       }
     }
 
+    if (!checkIndex(leftSide, pos, lword)) {
+      return;
+    }
     UString const result = StringUtils::copycase(evalString(rightSide),
 				   word[pos]->chunkPart(attr_items[part]));
     bool match = word[pos]->setChunkPart(attr_items[part], result);
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 9f50df0..ca5f564 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -300,7 +300,7 @@ Postchunk::processLet(xmlNode *localroot)
         return;
 
       case ti_clip_tl:
-      {
+      if (checkIndex(leftSide, ti.getPos(), lword)) {
         bool match = word[ti.getPos()]->setChunkPart(attr_items[ti.getContent()], evalString(rightSide));
         if(!match && trace)
         {
@@ -344,7 +344,9 @@ Postchunk::processLet(xmlNode *localroot)
       }
     }
 
-
+    if (!checkIndex(leftSide, pos, lword)) {
+      return;
+    }
     bool match = word[pos]->setChunkPart(attr_items[part],
 					 evalString(rightSide));
     if(!match && trace)
@@ -387,6 +389,9 @@ Postchunk::processModifyCase(xmlNode *localroot)
       }
     }
 
+    if (!checkIndex(leftSide, pos, lword)) {
+      return;
+    }
     UString const result = StringUtils::copycase(evalString(rightSide),
 				   word[pos]->chunkPart(attr_items[part]));
     bool match = word[pos]->setChunkPart(attr_items[part], result);
-- 
2.43.0


From a99b74451c2ef9ce4af6e24470499f7b892592f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 022/111] fix: transfer: split off word-bound blanks with -n
 and with a bilingual dictionary too

---
 apertium/transfer.cc | 41 +++++++++++++++++++++++++++++++----------
 apertium/transfer.h  |  1 +
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 64e821e..5790a0b 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -1055,8 +1055,10 @@ Transfer::transfer(InputFile& in, UFILE* out)
           UString tr_wblank;
           if(useBilingual && preBilingual == false)
           {
-            if(isExtended && (*tmpword[0])[0] == '*') {
-              tr = extended.biltransWithQueue((*tmpword[0]).substr(1), false);
+            UString source = *tmpword[0];
+            tr_wblank = takeWblank(source);
+            if(isExtended && source[0] == '*') {
+              tr = extended.biltransWithQueue(source.substr(1), false);
               if(tr.first[0] == '@') {
                 tr.first[0] = '*';
               } else {
@@ -1066,7 +1068,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
                 temp.swap(tr.first);
               }
             } else {
-              tr = fstp.biltransWithQueue(*tmpword[0], false);
+              tr = fstp.biltransWithQueue(source, false);
             }
           }
           else if(preBilingual)
@@ -1155,14 +1157,12 @@ Transfer::transfer(InputFile& in, UFILE* out)
           else
           {
             tr = pair<UString, int>(*tmpword[0], 0);
+            tr_wblank = takeWblank(tr.first);
           }
 
 	  if(tr.first.size() != 0) {
 	    if(defaultAttrs == lu) {
-          if(tr.first[0] != '[' || tr.first[1] != '[') {
-            u_fprintf(output, "%S^", tr_wblank.c_str());
-          }
-          u_fprintf(output, "%S$", tr.first.c_str());
+          u_fprintf(output, "%S^%S$", tr_wblank.c_str(), tr.first.c_str());
         } else {
           if(tr.first[0] == '*') {
             u_fprintf(output, "^unknown<unknown>{%S^", tr_wblank.c_str());
@@ -1245,6 +1245,23 @@ Transfer::transfer(InputFile& in, UFILE* out)
   }
 }
 
+UString
+Transfer::takeWblank(UString& str)
+{
+  UString wblank;
+  if (beginsWith(str, "[["_u)) {
+    size_t i = 2;
+    while (i < str.size() && !(str[i] == '^' && str[i-1] == ']' && str[i-2] == ']')) {
+      i += (str[i] == '\\' ? 2 : 1);
+    }
+    if (i < str.size()) {
+      wblank = str.substr(0, i);
+      str.erase(0, i+1);
+    }
+  }
+  return wblank;
+}
+
 int
 Transfer::applyRule()
 {
@@ -1269,8 +1286,10 @@ Transfer::applyRule()
     }
 
     if(useBilingual && preBilingual == false) {
-      auto tr = fstp.biltransWithQueue(*tmpword[i], false);
-      word[i] = new TransferWord(*tmpword[i], tr.first, ""_u, ""_u, tr.second);
+      UString source = *tmpword[i];
+      UString wblank = takeWblank(source);
+      auto tr = fstp.biltransWithQueue(source, false);
+      word[i] = new TransferWord(source, tr.first, ""_u, wblank, tr.second);
     }
     else if(preBilingual) {
       UString sl;
@@ -1354,7 +1373,9 @@ Transfer::applyRule()
     }
     else // neither useBilingual nor preBilingual (sl==tl)
     {
-      word[i] = new TransferWord(*tmpword[i], *tmpword[i], ""_u, ""_u, false);
+      UString source = *tmpword[i];
+      UString wblank = takeWblank(source);
+      word[i] = new TransferWord(source, source, ""_u, wblank, false);
     }
   }
 
diff --git a/apertium/transfer.h b/apertium/transfer.h
index 7cc90d8..7f4e2bc 100644
--- a/apertium/transfer.h
+++ b/apertium/transfer.h
@@ -69,6 +69,7 @@ private:
   UString readBlank(InputFile& in);
   UString readUntil(InputFile& in, int const symbol) const;
   void applyWord(UString const &word_str);
+  UString takeWblank(UString& str);
   int applyRule();
   TransferToken & readToken(InputFile& in);
   bool checkIndex(xmlNode *element, int index, int limit);
-- 
2.43.0


From 5b8091b9a46949ef58fb63e528a0afb0ffc06f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 023/111] fix: restore-caps: the end of a document does not
 repeat the last matches one word further on

---
 apertium/caps_restorer.cc | 7 ++++---
 apertium/caps_restorer.h  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index 4b0508f..c671e9e 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -49,7 +49,7 @@ CapsRestorer::process(InputFile& input, UFILE* output)
       u_fflush(output);
       continue;
     }
-    read_word(input);
+    if (!read_word(input)) continue;
     current_state.step_optional(word_boundary);
     if (current_state.isFinal(finals)) {
       auto path_set = current_state.filterFinalsLRX(finals, alpha, escaped_chars, false, false, 0);
@@ -144,7 +144,7 @@ CapsRestorer::step(int32_t sym)
   }
 }
 
-void
+bool
 CapsRestorer::read_word(InputFile& input)
 {
   LU cur;
@@ -156,7 +156,7 @@ CapsRestorer::read_word(InputFile& input)
   }
   if (input.peek() != '^') {
     words.push_back(std::move(cur));
-    return;
+    return false;
   }
   input.get();
   read_seg(input, cur.form);
@@ -213,4 +213,5 @@ CapsRestorer::read_word(InputFile& input)
   current_state.step(word_boundary);
 
   words.push_back(std::move(cur));
+  return true;
 }
diff --git a/apertium/caps_restorer.h b/apertium/caps_restorer.h
index 857288f..b3421af 100644
--- a/apertium/caps_restorer.h
+++ b/apertium/caps_restorer.h
@@ -54,7 +54,7 @@ private:
 
   std::vector<LU> words;
 
-  void read_word(InputFile& input);
+  bool read_word(InputFile& input);
   void output_all(UFILE* output);
   void step(int32_t sym);
   void read_seg(InputFile& input, UString& str);
-- 
2.43.0


From b0b0658ad9ac1820aa68e44ab81cea104f357a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 024/111] fix: restore-caps: keep the marks behind the
 capitalisation mark of a word

---
 apertium/caps_restorer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index c671e9e..a320384 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -176,10 +176,11 @@ CapsRestorer::read_word(InputFile& input)
   if (!cur.wblank.empty()) {
     std::vector<UString> new_pieces;
     auto pieces = StringUtils::split(cur.wblank.substr(2, cur.wblank.size()-4), "; "_u);
+    bool found = false;
     for (auto& it : pieces) {
       if (StringUtils::startswith(it, "c:"_u)) {
-        src_caps = it.substr(2);
-        break;
+        if (!found) src_caps = it.substr(2);
+        found = true;
       } else if (delete_wblanks) {
         new_pieces.push_back(it);
       }
-- 
2.43.0


From f7174a81fa59c9217f5ce9dae81e03d674ac2ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 025/111] fix: restore-caps: take the first of several surface
 forms instead of joining them

---
 apertium/caps_restorer.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index a320384..51ad103 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -163,13 +163,11 @@ CapsRestorer::read_word(InputFile& input)
   if (input.get() == '$') {
     cur.form.swap(cur.surf);
   } else {
-    UString temp;
-    UChar32 c;
-    do {
+    read_seg(input, cur.surf);
+    while (input.get() == '/') {
+      UString temp;
       read_seg(input, temp);
-      c = input.get();
-    } while (c == '/');
-    cur.surf.swap(temp);
+    }
   }
 
   UString src_caps = "aa/aa"_u;
-- 
2.43.0


From 8a70ea64cafeb5e3857b862d9618cb1f103d58da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 026/111] fix: apertium: the pair is the default direction of
 the translation memory

---
 apertium/apertium-header.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 78c31f3..82c5f03 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -490,7 +490,7 @@ PAIR=""
 INFILE="/dev/stdin"
 FORMAT="txt"
 DATADIR=$APERTIUM_DATADIR
-TRANSLATION_MEMORY_DIRECTION=$PAIR
+TRANSLATION_MEMORY_DIRECTION=""
 LIST_MODES_AND_EXIT=false
 TMXPROC_OPTIONS=()
 FORMAT_OPTIONS=()
@@ -564,6 +564,7 @@ elif [[ ! -r "$INFILE" ]]; then
 fi
 
 if [[ -n $TRANSLATION_MEMORY_FILE ]]; then
+  [[ -z $TRANSLATION_MEMORY_DIRECTION ]] && TRANSLATION_MEMORY_DIRECTION=$PAIR
   if ! lt-tmxcomp "$TRANSLATION_MEMORY_DIRECTION" "$TRANSLATION_MEMORY_FILE" "$TMCOMPFILE" >/dev/null; then
     echo "Error: Cannot compile TM '$TRANSLATION_MEMORY_FILE'" >&2
     echo "   hint: use -o parameter to specify translation memory source/target languages" >&2
-- 
2.43.0


From 46a2d03c5053558f35a604d284fe9cfa0066c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 027/111] fix: apertium: format wxmlu is wxml without marks

---
 apertium/apertium-header.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 82c5f03..192f593 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -732,6 +732,7 @@ case "$FORMAT" in
     ;;
 
   wxmlu)
+    FORMAT="wxml";
     OPTION="-n";
     ;;
 
-- 
2.43.0


From 374fb5983e29d59b6f0c28de756cc1a1fcedc34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 028/111] fix: apertium: -u also holds for unknown formats

---
 apertium/apertium-header.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 192f593..16b23aa 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -741,7 +741,9 @@ case "$FORMAT" in
   *) # Por defecto asumimos txt
     echo "$0 WARNING: Unknown format ${FORMAT}, treating as 'txt'" >&2
     FORMAT="txt"
-    OPTION="-g"
+    if [[ "$UWORDS" = "no" ]]; then OPTION="-n";
+    else OPTION="-g";
+    fi;
     ;;
 esac
 
-- 
2.43.0


From 16bb77787612e1ec8a5eb7630fa8e5d6e80fee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 029/111] fix: apertium: read archives from the standard input

---
 apertium/apertium-header.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 16b23aa..864517e 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -230,7 +230,7 @@ translate_odt () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
@@ -274,7 +274,7 @@ translate_docx () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
@@ -331,7 +331,7 @@ translate_pptx () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
@@ -382,7 +382,7 @@ translate_xlsx () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
-- 
2.43.0


From 02d7025833f658feb1794645018a0f0167f7ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 030/111] fix: apertium: no empty argument for embedded
 worksheets

---
 apertium/apertium-header.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 864517e..5acc21d 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -290,7 +290,7 @@ translate_docx () {
 
   find "$INPUT_TMPDIR" -name "*.xlsx" -print0 | while read -r -d '' i; do
     LOCALTEMP=$(mktemp "$TMPDIR/apertium.XXXXXXXX");
-    apertium -f xlsx -d "$DATADIR" "$OPCIONU" "$PAIR" <"$i" >"$LOCALTEMP";
+    apertium -f xlsx -d "$DATADIR" ${OPCIONU:+"$OPCIONU"} "$PAIR" <"$i" >"$LOCALTEMP";
     cp "$LOCALTEMP" "$i";
     rm "$LOCALTEMP";
   done;
@@ -347,7 +347,7 @@ translate_pptx () {
 
   find "$INPUT_TMPDIR" -name "*.xlsx" -print0 | while read -r -d '' i; do
     LOCALTEMP=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
-    apertium -f xlsx -d "$DATADIR" "$OPCIONU" "$PAIR" <"$i" >"$LOCALTEMP";
+    apertium -f xlsx -d "$DATADIR" ${OPCIONU:+"$OPCIONU"} "$PAIR" <"$i" >"$LOCALTEMP";
     cp "$LOCALTEMP" "$i"
     rm "$LOCALTEMP"
   done;
-- 
2.43.0


From 8c96cdc19353c5bae97bcf52f617c5df1feec66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 031/111] fix: apertium: remove the copy of a LaTeX document
 when its encoding is rejected

---
 apertium/apertium-header.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 5acc21d..0aa4058 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -188,6 +188,7 @@ translate_latex() {
 
   if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
+    trap 'rm -Rf "$TMCOMPFILE" "$INFILE"' EXIT
     cat > "$INFILE"
     BORRAFICHERO="true"
   fi
-- 
2.43.0


From 8256bd52c65f58178d80f2a80e686699cdb3c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 032/111] fix: adapt-docx: empty text elements

---
 apertium/adapt_docx.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 7e54d22..9624ca5 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -78,6 +78,7 @@ Walker::Walker(xmlNode *_root, string _name, bool _goDown, xmlElementType _type)
 	name = _name;
 	type = _type;
 	goDown = _goDown;
+	current = NULL;
 	if (root)
 		higher.push(root);
 	if (match(root))
-- 
2.43.0


From b9a230d276171fde401aebc77bb88d435fc815df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 033/111] fix: adapt-docx: replace the whole content of a text
 element

---
 apertium/adapt_docx.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 9624ca5..2cb0d8e 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -195,7 +195,13 @@ TextRun::TextRun(xmlNode *_root)
 
 void TextRun::setText(string _text)
 {
-	xmlReplaceNode(text_0->children, xmlNewText((const xmlChar*)_text.c_str()));
+	// all of the old content goes, also behind comments
+	while (text_0->children) {
+		xmlNode *old = text_0->children;
+		xmlUnlinkNode(old);
+		xmlFreeNode(old);
+	}
+	xmlAddChild(text_0, xmlNewText((const xmlChar*)_text.c_str()));
 	xmlNodeSetSpacePreserve(text_0, _text.front() == ' ' || _text.back() == ' ' ? 1 : 0);
 }
 
@@ -402,7 +408,7 @@ inline const unsigned char* printNl2spc(const unsigned char *p) {
 // The result can be pretty
 void process(string fileName, bool outputsName, bool pretty)
 {
-	xmlDoc *document = xmlReadFile(fileName.c_str(), NULL, XML_PARSE_NOENT);
+	xmlDoc *document = xmlReadFile(fileName.c_str(), NULL, XML_PARSE_NOENT | XML_PARSE_NOCDATA);
 	if (document == NULL) {
 		cerr << "error: could not parse file \"" << fileName << "\"" << endl;
 		return;
-- 
2.43.0


From ec73fead90c4adf8ab2597733bcd3b04d693d8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 034/111] fix: adapt-docx: newlines at the ends of a text are
 preserved

---
 apertium/adapt_docx.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 2cb0d8e..e6ce88b 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -202,7 +202,9 @@ void TextRun::setText(string _text)
 		xmlFreeNode(old);
 	}
 	xmlAddChild(text_0, xmlNewText((const xmlChar*)_text.c_str()));
-	xmlNodeSetSpacePreserve(text_0, _text.front() == ' ' || _text.back() == ' ' ? 1 : 0);
+	const string blanks = " \t\r\n";
+	bool preserve = blanks.find(_text.front()) != string::npos || blanks.find(_text.back()) != string::npos;
+	xmlNodeSetSpacePreserve(text_0, preserve ? 1 : 0);
 }
 
 void TextRun::remove()
-- 
2.43.0


From 6aad3a887499a09a1d202d0bc5a24edecac628f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 035/111] fix: adapt-docx: text does not jump over other
 content

---
 apertium/adapt_docx.cc | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index e6ce88b..4e790ea 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -151,6 +151,9 @@ public:
 	bool hasText() { return containsText; }
 	void setLast(bool _is) { last = _is; }
 	bool isLast() { return last; }
+	bool hasContentBefore() { return hasContent(root->children, text_0); }
+	bool hasContentAfter() { return hasContent(text_0->next, NULL); }
+	static bool hasContent(xmlNode *first, xmlNode *end);
 	void remove();
 private:
 	xmlNode *root;
@@ -193,6 +196,19 @@ TextRun::TextRun(xmlNode *_root)
 		containsText = false;
 }
 
+// Is there anything that shows (tabs, line breaks, images...) from first up to end?
+/*static*/
+bool TextRun::hasContent(xmlNode *first, xmlNode *end)
+{
+	for (xmlNode *node = first; node != end; node = node->next) {
+		if (node->type == xmlElementType::XML_ELEMENT_NODE &&
+			xmlStrcmp(node->name, (const xmlChar*)"rPr") != 0 &&
+			xmlStrcmp(node->name, (const xmlChar*)"lastRenderedPageBreak") != 0)
+			return true;
+	}
+	return false;
+}
+
 void TextRun::setText(string _text)
 {
 	// all of the old content goes, also behind comments
@@ -226,13 +242,28 @@ private:
 Paragraph::Paragraph(xmlNode *_root)
 {
 	root = _root;
-	vector<xmlNode*> nodes = Walker::findAll(root->children, "r", false);
-	for (auto it = nodes.begin(); it != nodes.end(); it++) {
-		TextRun *r = new TextRun(*it);
-		if (r->hasText())
+	for (xmlNode *node = root->children; node; node = node->next) {
+		if (node->type != xmlElementType::XML_ELEMENT_NODE)
+			continue;
+		if (xmlStrcmp(node->name, (const xmlChar*)"r") != 0) {
+			// text must not jump over the text of links, insertions...
+			if (!runs.empty() && !Walker::findAll(node->children, "r", true).empty())
+				runs.back()->setLast(true);
+			continue;
+		}
+		TextRun *r = new TextRun(node);
+		if (r->hasText()) {
+			if (!runs.empty() && r->hasContentBefore())
+				runs.back()->setLast(true);
 			runs.push_back(r);
-		else
+			if (r->hasContentAfter())
+				r->setLast(true);
+		}
+		else {
+			if (!runs.empty() && TextRun::hasContent(node->children, NULL))
+				runs.back()->setLast(true);
 			delete r;
+		}
 	}
 	if (!runs.empty())
 		runs.back()->setLast(true);
-- 
2.43.0


From 0e81b0214da9a45c4c2694c17efbe5c89d492b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 036/111] fix: adapt-docx: keep the other content of runs that
 become empty

---
 apertium/adapt_docx.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 4e790ea..4021322 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -225,7 +225,8 @@ void TextRun::setText(string _text)
 
 void TextRun::remove()
 {
-	xmlUnlinkNode(root);
+	// tabs, line breaks... stay
+	xmlUnlinkNode(hasContentBefore() || hasContentAfter() ? text_0 : root);
 }
 
 // A list of text runs
-- 
2.43.0


From 8fa1024bfc88fc5a14484b56315bf87ecb412ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 037/111] fix: lswpost: enforce rules also hold after a word of
 the same tag

---
 apertium/lswpost.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/lswpost.cc b/apertium/lswpost.cc
index d93c9bd..5084ab5 100644
--- a/apertium/lswpost.cc
+++ b/apertium/lswpost.cc
@@ -211,7 +211,8 @@ bool LSWPoST::is_valid_seq(TTag left, TTag mid, TTag right) {
       if (!found) {
         return false;
       }
-    } else if (mid == enforce_rules[r].tagi) {
+    }
+    if (mid == enforce_rules[r].tagi) {
       bool found = false;
       for (size_t j = 0; j < enforce_rules[r].tagsj.size(); ++j) {
         if (enforce_rules[r].tagsj[j] == right) {
-- 
2.43.0


From e642e90efa10bec39f0df70c6c8e680c490ae13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 038/111] fix: lswpost: tag every segment, and no further

---
 apertium/lswpost.cc | 64 ++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/apertium/lswpost.cc b/apertium/lswpost.cc
index 5084ab5..790d1cd 100644
--- a/apertium/lswpost.cc
+++ b/apertium/lswpost.cc
@@ -346,29 +346,27 @@ LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
 
   warn_absent_ambiguity_class(tdlsw, tags_left, *word_left, TheFlags.getDebug());
   word_mid = morpho_stream.get_next_word(); // word mid
-  word_mid->set_show_sf(TheFlags.getShowSuperficial());
-  tags_mid = word_mid->get_tags();          // tags mid
 
-  warn_absent_ambiguity_class(tdlsw, tags_mid, *word_mid, TheFlags.getDebug());
-  if (morpho_stream.getEndOfFile()) {
-    delete word_left;
-    delete word_mid;
-    return;
-  }
-  word_right = morpho_stream.get_next_word(); // word_right
-  word_right->set_show_sf(TheFlags.getShowSuperficial());
-
-  UString micad;
+  while (word_mid) {
+    word_mid->set_show_sf(TheFlags.getShowSuperficial());
+    tags_mid = word_mid->get_tags();          // tags mid
+
+    // nothing is read past the end of the text (or of the segment, with null flush)
+    bool is_last = morpho_stream.getEndOfFile();
+    word_right = is_last ? NULL : morpho_stream.get_next_word(); // word right
+    tags_right.clear();
+    if (word_right) {
+      tags_right = word_right->get_tags();          // tags right
+      if (tags_right.size()==0) { //This is an unknown word
+        tags_right = tdlsw.getOpenClass();
+      }
+    }
 
-  while (word_right) {
-    tags_right = word_right->get_tags();
-    warn_absent_ambiguity_class(tdlsw, tags_right, *word_right, TheFlags.getDebug());
+    warn_absent_ambiguity_class(tdlsw, tags_mid, *word_mid, TheFlags.getDebug());
 
-    set<TTag> *tags_avail;
-    tags_avail = &tags_mid;
     double max = -1;
-    TTag tag_max = *tags_avail->begin();
-    for (iter_mid = tags_avail->begin(); iter_mid != tags_avail->end(); ++iter_mid) {
+    TTag tag_max = eos;
+    for (iter_mid = tags_mid.begin(); iter_mid != tags_mid.end(); ++iter_mid) {
       double n = 0;
       for (iter_left = tags_left.begin(); iter_left != tags_left.end(); ++iter_left) {
         for (iter_right = tags_right.begin(); iter_right != tags_right.end(); ++iter_right) {
@@ -381,26 +379,28 @@ LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
       }
     }
 
-    micad = word_mid->get_lexical_form(tag_max, (tdlsw.getTagIndex())["TAG_kEOF"_u]);
-    write(micad, Output);
-    if (morpho_stream.getEndOfFile()) {
+    write(word_mid->get_lexical_form(tag_max, (tdlsw.getTagIndex())["TAG_kEOF"_u]), Output);
+
+    if (is_last) {
       if (TheFlags.getNullFlush()) {
         u_fputc('\0', Output);
       }
       u_fflush(Output);
       morpho_stream.setEndOfFile(false);
-    }
 
-    delete word_left;
-    word_left = word_mid;
-    tags_left = tags_mid;
-    word_mid = word_right;
-    tags_mid = tags_right;
-    word_right = morpho_stream.get_next_word();
-    if (word_right != NULL) {
-      word_right->set_show_sf(TheFlags.getShowSuperficial());
+      // the next segment starts after the end of a sentence, too
+      tags_left.clear();
+      tags_left.insert(eos);
+      delete word_mid;
+      word_mid = morpho_stream.get_next_word();
+    } else {
+      tags_left = tags_mid;
+      if (tags_left.size()==0) { //This is an unknown word
+        tags_left = tdlsw.getOpenClass();
+      }
+      delete word_mid;
+      word_mid = word_right;
     }
   }
   delete word_left;
-  delete word_mid;
 }
-- 
2.43.0


From a7660f43518a76f04a212e2e0492d41628aae5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 039/111] fix: hmm: report a tagged corpus longer than the
 untagged one

---
 apertium/hmm.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apertium/hmm.cc b/apertium/hmm.cc
index 3dd9414..d79fcd5 100644
--- a/apertium/hmm.cc
+++ b/apertium/hmm.cc
@@ -291,6 +291,11 @@ HMM::init_probabilities_from_tagged_text(MorphoStream &stream_tagged,
   word_tagged = stream_tagged.get_next_word();
   word_untagged = stream_untagged.get_next_word();
   while(word_tagged) {
+    if (word_untagged==NULL) {
+      cerr<<"word_untagged==NULL\n";
+      exit(1);
+    }
+
     cerr<<*word_tagged;
     cerr<<" -- "<<*word_untagged<<"\n";
 
@@ -306,11 +311,6 @@ HMM::init_probabilities_from_tagged_text(MorphoStream &stream_tagged,
 
     tag2 = tag1;
 
-    if (word_untagged==NULL) {
-      cerr<<"word_untagged==NULL\n";
-      exit(1);
-    }
-
     if (word_tagged->get_tags().size()==0) // Unknown word
       tag1 = -1;
     else if (word_tagged->get_tags().size()>1) // Ambiguous word
-- 
2.43.0


From 45af050226ad8e20b0b10da22f085a50306cd424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 040/111] fix: tagger: unseen ambiguity classes do not
 overwrite the open class

---
 apertium/tagger_utils.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/apertium/tagger_utils.cc b/apertium/tagger_utils.cc
index 3da0415..2a54e44 100644
--- a/apertium/tagger_utils.cc
+++ b/apertium/tagger_utils.cc
@@ -147,20 +147,21 @@ tagger_utils::add_neccesary_ambg_classes(TaggerData &td) {
 
 set<TTag> &
 tagger_utils::find_similar_ambiguity_class(TaggerData &td, set<TTag> &c) {
-  set<TTag> &ret = td.getOpenClass();
+  // the open class itself must stay as it is: unknown words are assigned it
+  const set<TTag> *ret = &td.getOpenClass();
   Collection &output = td.getOutput();
 
   for (int k=0; k<output.size(); k++) {
     const set<TTag> &ambg_class = output[k];
-    if (ambg_class.size() > ret.size() ||
-        (ambg_class.size() == ret.size())) {
+    if (ambg_class.size() > ret->size() ||
+        (ambg_class.size() == ret->size())) {
       continue;
     }
     if (includes(ambg_class.begin(), ambg_class.end(), c.begin(), c.end())) {
-      ret = ambg_class;
+      ret = &ambg_class;
     }
   }
-  return ret;
+  return const_cast<set<TTag> &>(*ret);
 }
 
 void
-- 
2.43.0


From b0f3476ce9487e68b15eb9de1f543f68524e5058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 041/111] fix: tagger_data: copy the discard rules

---
 apertium/tagger_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/tagger_data.cc b/apertium/tagger_data.cc
index 0eb93ec..a8f63de 100644
--- a/apertium/tagger_data.cc
+++ b/apertium/tagger_data.cc
@@ -28,6 +28,7 @@ TaggerData::copy(TaggerData const &o)
   array_tags = o.array_tags;
   enforce_rules = o.enforce_rules;
   prefer_rules = o.prefer_rules;
+  discard = o.discard;
   constants = o.constants;
   output = o.output;
   plist = o.plist;
-- 
2.43.0


From d76cf2ab234a4404d2da16addcd2dee8febc494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 042/111] fix: tagger_word: discard rules never discard the
 last analysis

---
 apertium/tagger_word.cc | 34 ++++++++++------------------------
 apertium/tagger_word.h  |  2 +-
 2 files changed, 11 insertions(+), 25 deletions(-)

diff --git a/apertium/tagger_word.cc b/apertium/tagger_word.cc
index cb86bdc..6422f0b 100644
--- a/apertium/tagger_word.cc
+++ b/apertium/tagger_word.cc
@@ -340,35 +340,21 @@ TaggerWord::outputOriginal(UFILE *output) {
 }
 
 void
-TaggerWord::discardOnAmbiguity(UString const &tags)
+TaggerWord::discardOnAmbiguity(UString const &pattern)
 {
-  if(isAmbiguous())
+  map<TTag, UString>::iterator it = lexical_forms.begin();
+
+  // the last analysis is never discarded
+  while (it != lexical_forms.end() && lexical_forms.size() > 1)
   {
-    map<TTag, UString>::iterator it = lexical_forms.begin(),
-                              limit = lexical_forms.end();
-    set<TTag> newsettag;
-    while(it != limit)
+    if(match(it->second, pattern))
     {
-      if(match(it->second, tags))
-      {
-        lexical_forms.erase(it);
-        it = lexical_forms.begin();
-      }
-      else
-      {
-        newsettag.insert(it->first);
-      }
-
-      if(lexical_forms.size() == 1)
-      {
-        newsettag.insert(lexical_forms.begin()->first);
-        break;
-      }
-      it++;
+      tags.erase(it->first);
+      lexical_forms.erase(it++);
     }
-    if(tags.size() != newsettag.size())
+    else
     {
-      this->tags = newsettag;
+      ++it;
     }
   }
 }
diff --git a/apertium/tagger_word.h b/apertium/tagger_word.h
index 093bf77..70fff9c 100644
--- a/apertium/tagger_word.h
+++ b/apertium/tagger_word.h
@@ -150,7 +150,7 @@ public:
   bool isAmbiguous() const;  // CAUTION: unknown words are not considered to
                              // be ambiguous by this method
 
-  void discardOnAmbiguity(UString const &tags);
+  void discardOnAmbiguity(UString const &pattern);
 };
 
 #endif
-- 
2.43.0


From f2487cd12118bfa59a428917f466f2e82a895f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 043/111] fix: tagger: -r trains the given tagger

---
 apertium/tagger.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/apertium/tagger.cc b/apertium/tagger.cc
index 8022c0f..c06a5a5 100644
--- a/apertium/tagger.cc
+++ b/apertium/tagger.cc
@@ -680,16 +680,12 @@ void apertium_tagger::r_FILE_Tagger(FILE_Tagger &FILE_Tagger_) {
 
   TaggerWord::setArrayTags(FILE_Tagger_.getArrayTags());
 
-  UFILE* UntaggedCorpus;
-  MorphoStream* ms = setup_untagged_morpho_stream(
-    FILE_Tagger_,
-    NULL, UntaggedFn,
-    &UntaggedCorpus);
-
-  FILE_Tagger_.train(*ms, TheFunctionTypeOptionArgument);
-  delete ms;
+  // the ambiguity classes and the probabilities come from the tagger itself
+  UFILE* UntaggedCorpus = try_open_file_utf8("UNTAGGED_CORPUS", UntaggedFn, "r");
   u_fclose(UntaggedCorpus);
 
+  FILE_Tagger_.train(UntaggedFn, TheFunctionTypeOptionArgument);
+
   Serialised_FILE_Tagger =
       try_open_file("SERIALISED_TAGGER", ProbFn, "wb");
   FILE_Tagger_.serialise(Serialised_FILE_Tagger);
-- 
2.43.0


From fdc5b879dc0fc33d179285053c4f07cb96955c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 044/111] fix: stream: unterminated words and null characters
 behind words

---
 apertium/stream.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apertium/stream.cc b/apertium/stream.cc
index 07e3652..bc0693d 100644
--- a/apertium/stream.cc
+++ b/apertium/stream.cc
@@ -40,6 +40,9 @@ StreamedType Stream::get() {
     TheStreamedType.TheLexicalUnit = LexicalUnit();
     UChar32 c = TheCharacterStream.get();
     while (c != '/' && c != '$') {
+      if (TheCharacterStream.eof()) {
+        throw Exception::Stream::UnexpectedEndOfFile("unterminated lexical unit");
+      }
       TheStreamedType.TheLexicalUnit->TheSurfaceForm += c;
       if (c == '\\') {
         c = TheCharacterStream.get();
@@ -70,7 +73,8 @@ StreamedType Stream::get() {
     }
   }
 
-  if (TheCharacterStream.peek() == '\0') {
+  // a null character right behind a lexical unit comes as a token of its own
+  if (!TheStreamedType.TheLexicalUnit && TheCharacterStream.peek() == '\0') {
     TheCharacterStream.get();
     private_flush_ = true;
   }
-- 
2.43.0


From 92a7abbbdcb6f7f5ab7e727d9e60091f997bb636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 045/111] fix: morpheme: unterminated analyses

---
 apertium/morpheme.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apertium/morpheme.cc b/apertium/morpheme.cc
index 7a78c36..6a98e85 100644
--- a/apertium/morpheme.cc
+++ b/apertium/morpheme.cc
@@ -67,6 +67,9 @@ Morpheme::read(InputFile& in)
 {
   UChar32 c = in.get();
   while (c != '<' && c != '$' && c != '/' && c != '\0') {
+    if (in.eof()) {
+      throw Exception::Stream::UnexpectedEndOfFile("Unterminated lexical unit");
+    }
     TheLemma += c;
     if (c == '\\') {
       if (in.eof() || in.peek() == '\0') {
@@ -92,6 +95,9 @@ Morpheme::read(InputFile& in)
   }
   if (c == '#') {
     while (c != '<' && c != '$' && c != '/' && c != '\0' && c != '+') {
+      if (in.eof()) {
+        throw Exception::Stream::UnexpectedEndOfFile("Unterminated lexical unit");
+      }
       TheLemma += c;
       if (c == '\\') {
         if (in.eof() || in.peek() == '\0') {
-- 
2.43.0


From 0f82f1b9c88bde04c4092067473ad9fd51b30062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 046/111] fix: unigram tagger: null characters are passed on

---
 apertium/unigram_tagger.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/apertium/unigram_tagger.cc b/apertium/unigram_tagger.cc
index 8fb543b..ed25712 100644
--- a/apertium/unigram_tagger.cc
+++ b/apertium/unigram_tagger.cc
@@ -250,7 +250,7 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
       if (!Input.flush_())
         break;
 
-      Output << std::flush;
+      Output << '\0' << std::flush;
       continue;
     }
     if(TheFlags.getDebug())
@@ -259,9 +259,6 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
     }
 
     tag(*StreamedType_.TheLexicalUnit, Output);
-
-    if (Input.flush_())
-      Output << std::flush;
   }
 }
 
-- 
2.43.0


From 018222dde028074d7d643a6cfa3bf3f4e6645035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 047/111] fix: perceptron_spec: initialise empty stack values

---
 apertium/perceptron_spec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/perceptron_spec.h b/apertium/perceptron_spec.h
index 89347ee..de34ca7 100644
--- a/apertium/perceptron_spec.h
+++ b/apertium/perceptron_spec.h
@@ -219,7 +219,7 @@ public:
       swap(a.type, b.type);
     }
     // Smart pointer + tagged union safe to store in STL types
-    StackValue() {}
+    StackValue() : StackValue(0) {}
     StackValue(const StackValue &other) {
       // C++11: Probably reference counting with shared_ptr would be better
       // than all this copying if it were available
-- 
2.43.0


From 2b062f14cd1950fded8db3a8c5595f669a15dfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 048/111] fix: perceptron_spec: and, or take both operands

---
 apertium/perceptron_spec.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 5fdd303..5bf650b 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -306,12 +306,16 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
 {
   //traceMachineState();
   switch (op) {
-    case OR:
-      stack.push(stack.pop_off().boolVal() || stack.pop_off().boolVal());
-      break;
-    case AND:
-      stack.push(stack.pop_off().boolVal() && stack.pop_off().boolVal());
-      break;
+    case OR: {
+      bool b = stack.pop_off().boolVal();
+      bool a = stack.pop_off().boolVal();
+      stack.push(a || b);
+    } break;
+    case AND: {
+      bool b = stack.pop_off().boolVal();
+      bool a = stack.pop_off().boolVal();
+      stack.push(a && b);
+    } break;
     case NOT:
       stack.push(!stack.pop_off().boolVal());
       break;
-- 
2.43.0


From 6c8efa4c537eaa2c55fb20e9a07af61c6da1ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 049/111] fix: perceptron_spec: order of operands in
 comparisons

---
 apertium/perceptron_spec.cc | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 5bf650b..39b203a 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -336,18 +336,26 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
     case PUSHINT:
       stack.push(get_int_operand());
       break;
-    case LT:
-      stack.push(stack.pop_off().intVal() < stack.pop_off().intVal());
-      break;
-    case LTE:
-      stack.push(stack.pop_off().intVal() <= stack.pop_off().intVal());
-      break;
-    case GT:
-      stack.push(stack.pop_off().intVal() > stack.pop_off().intVal());
-      break;
-    case GTE:
-      stack.push(stack.pop_off().intVal() >= stack.pop_off().intVal());
-      break;
+    case LT: {
+      int b = stack.pop_off().intVal();
+      int a = stack.pop_off().intVal();
+      stack.push(a < b);
+    } break;
+    case LTE: {
+      int b = stack.pop_off().intVal();
+      int a = stack.pop_off().intVal();
+      stack.push(a <= b);
+    } break;
+    case GT: {
+      int b = stack.pop_off().intVal();
+      int a = stack.pop_off().intVal();
+      stack.push(a > b);
+    } break;
+    case GTE: {
+      int b = stack.pop_off().intVal();
+      int a = stack.pop_off().intVal();
+      stack.push(a >= b);
+    } break;
     case EQ:
       stack.push(stack.pop_off().intVal() == stack.pop_off().intVal());
       break;
-- 
2.43.0


From 603e31691e227055685a20bb19c209fc0c144556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 050/111] fix: perceptron_spec: negative subscripts

---
 apertium/mtx_reader.cc      | 2 +-
 apertium/perceptron_spec.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index ea7e597..79ffa78 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -287,7 +287,7 @@ bool MTXReader::tryProcSubscript(bool (MTXReader::*proc_inner)(bool))
     stepToNextTag();
     (this->*proc_inner)(false);
     emitOpcode(VM::SUBSCRIPT);
-    emitUInt(idx);
+    emitInt(idx);
     assert(name == "subscript"_u && type == XML_READER_TYPE_END_ELEMENT);
     stepToNextTag();
     return true;
diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 39b203a..8c93afb 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -282,7 +282,7 @@ slice(T &vec, int begin, int end) {
 template <typename T> static T
 subscript(std::vector<T> vec, int idx) {
   if (idx < 0) {
-    idx = vec.size() - idx;
+    idx = vec.size() + idx;
   }
   idx = clamp(0, vec.size() - 1, idx);
   return vec[idx];
@@ -640,7 +640,7 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       }
     } break;
     case SUBSCRIPT: {
-      size_t idx = get_uint_operand();
+      int idx = get_int_operand();
       if (stack.top().type == STRARRVAL) {
         stack.push(subscript(stack.pop_off().strArr(), idx));
       } else if (stack.top().type == WRDARRVAL) {
-- 
2.43.0


From 46912650fe2da831e80985ae79965c1c86e78433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 051/111] fix: perceptron_spec: filterin removes the rest

---
 apertium/perceptron_spec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 8c93afb..365992a 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -588,7 +588,7 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       std::vector<std::string> &str_arr = stack.top().strArr();
       In comp(set_op);
       str_arr.erase(std::remove_if(
-          str_arr.begin(), str_arr.end(), [&](const std::string& e){return !comp(e);} ));
+          str_arr.begin(), str_arr.end(), [&](const std::string& e){return !comp(e);} ), str_arr.end());
     } break;
     /*
     case SETHAS: {
-- 
2.43.0


From b036618d7099c134637d702c784a073c3a3aaade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 052/111] fix: perceptron_spec: for-each over nothing gives an
 empty list

---
 apertium/perceptron_spec.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 365992a..a1c7aa5 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -379,6 +379,10 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
           .iterable=stack.pop_off(),
           .iteration=0,
           .accumulator=StackValue(0)});
+      if (loop_stack.back().iterable.type == STRARRVAL) {
+        // what is left if there is nothing to iterate over
+        loop_stack.back().accumulator = StackValue(std::vector<std::string>());
+      }
     } break;
     case FOREACH: {
       //std::cerr << "size: " << loop_stack.back().iterable.size()
-- 
2.43.0


From 8519d32130e8916e4f0fa4d558e5583eb4bfc838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 053/111] fix: perceptron_spec: slices of empty lists

---
 apertium/perceptron_spec.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index a1c7aa5..3275e08 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -268,6 +268,9 @@ clamp(int lower, int upper, int x) {
 
 template <typename T> static void
 slice(T &vec, int begin, int end) {
+  if (vec.empty()) {
+    return;
+  }
   if (begin < 0) {
     begin = vec.size() + begin;
   }
@@ -275,7 +278,7 @@ slice(T &vec, int begin, int end) {
     end = vec.size() + end;
   }
   begin = clamp(0, vec.size() - 1, begin);
-  end = clamp(0, vec.size(), end);
+  end = clamp(begin, vec.size(), end);
   vec.assign(vec.begin() + begin, vec.begin() + end);
 }
 
-- 
2.43.0


From d755d19ce44bdbbc7dcdce6285c1de6c9e5f006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 054/111] fix: perceptron_spec: empty feature definitions

---
 apertium/perceptron_spec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 3275e08..6d38563 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -797,7 +797,7 @@ PerceptronSpec::Machine::get_tag(const UString &in) {
 void PerceptronSpec::serialiseFeatDefn(
     std::ostream &serialised, const FeatureDefn &defn) const {
   Serialiser<std::string>::serialise(
-      std::string((char*)&(defn.front()), defn.size()),
+      std::string(defn.begin(), defn.end()),
       serialised);
 }
 
-- 
2.43.0


From b79151ee9b81bb8a5208536a8e2ffcd773a1d69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 055/111] fix: mtx_reader: def-set

---
 apertium/mtx_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 79ffa78..efc0d3f 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -101,13 +101,13 @@ void MTXReader::procCoarseTags()
 
 void MTXReader::procSetDef()
 {
-  std::string name = attrib_str("name"_u);
+  std::string set_name = attrib_str("name"_u);
   stepToNextTag();
   size_t set_idx = spec.set_consts.size();
   spec.set_consts.push_back(VMSet());
   VMSet &vm_set = spec.set_consts.back();
   while (type != XML_READER_TYPE_END_ELEMENT) {
-    if (name == "set-member") {
+    if (name == "set-member"_u) {
       std::string tag = attrib_str("tag"_u);
       std::string str = attrib_str("str"_u);
       vm_set.insert(tag.empty() ? str : tag);
@@ -116,8 +116,8 @@ void MTXReader::procSetDef()
     }
     stepToNextTag();
   }
-  set_names[name] = set_idx;
-  assert(name == "def-set");
+  set_names[set_name] = set_idx;
+  assert(name == "def-set"_u);
   stepToNextTag();
 }
 
-- 
2.43.0


From 63f7069eb19eff026d47af1716c3a2ccc04faf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 056/111] fix: mtx_reader: step past beam-width

---
 apertium/mtx_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index efc0d3f..03fbeb4 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -1163,6 +1163,7 @@ MTXReader::parse()
     std::istringstream val_ss(attrib_str("val"_u));
     val_ss >> val;
     spec.beam_width = val;
+    stepPastSelfClosingTag("beam-width"_u);
   } else {
     spec.beam_width = 4;
   }
-- 
2.43.0


From cc52282d0792352cb0f8bd4632e54378883997cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 057/111] fix: mtx_reader: toklen, strlen and arrlen

---
 apertium/mtx_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 03fbeb4..8a8ea82 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -227,19 +227,22 @@ MTXReader::procIntExpr(bool allow_fail)
       emitOpcode(VM::ADD);
       stepToNextTag();
     } else if (name == "toklen"_u) {
+      stepToNextTag();
       procIntExpr();
       assert(name == "toklen"_u && type == XML_READER_TYPE_END_ELEMENT);
       emitOpcode(VM::TOKLENWRD);
       stepToNextTag();
     } else if (name == "strlen"_u) {
+      stepToNextTag();
       procStrExpr();
       assert(name == "strlen"_u && type == XML_READER_TYPE_END_ELEMENT);
       emitOpcode(VM::STRLEN);
       stepToNextTag();
     } else if (name == "arrlen"_u) {
+      stepToNextTag();
       procStrArrExpr();
       assert(name == "arrlen"_u && type == XML_READER_TYPE_END_ELEMENT);
-      procBinCompareOp(VM::ARRLEN);
+      emitOpcode(VM::ARRLEN);
       stepToNextTag();
     } else {
       if (allow_fail) {
-- 
2.43.0


From b19fe513833fb6cd6b27ca1deec3d31ef601d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 058/111] fix: mtx_reader: variable types belong to their slot

---
 apertium/mtx_reader.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 8a8ea82..5b45648 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -975,19 +975,24 @@ MTXReader::procForEach(ExprType expr_type)
   }
   size_t slot_idx = slot_counter++;
   slot_names[var_name] = slot_idx;
+  VM::StackValueType slot_type = VM::STRVAL;
   bool has_expr = false;
   stepToNextTag();
   if (procStrArrExpr(true)) {
-    slot_types.push_back(VM::STRVAL);
+    slot_type = VM::STRVAL;
     has_expr = true;
   }
   if (!has_expr && procWordoidArrExpr(true)) {
-    slot_types.push_back(VM::WRDVAL);
+    slot_type = VM::WRDVAL;
     has_expr = true;
   }
   if (!has_expr) {
     parseError("Expected a string array or wordoid array expression."_u);
   }
+  if (slot_types.size() <= slot_idx) {
+    slot_types.resize(slot_idx + 1);
+  }
+  slot_types[slot_idx] = slot_type;
 
   emitOpcode(VM::FOREACHINIT);
   size_t for_each_begin = cur_feat->size();
-- 
2.43.0


From 6a145eee37d6193332b7117cc1992e325f5d0752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 059/111] fix: feature_vec_averager: iterate past erased
 weights

---
 apertium/feature_vec_averager.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apertium/feature_vec_averager.cc b/apertium/feature_vec_averager.cc
index a45025d..7c96cc3 100644
--- a/apertium/feature_vec_averager.cc
+++ b/apertium/feature_vec_averager.cc
@@ -40,13 +40,14 @@ void
 FeatureVecAverager::average() {
   FeatureVec::Map::iterator weights_it;
   for (weights_it = weights.data.begin();
-       weights_it != weights.data.end(); weights_it++) {
+       weights_it != weights.data.end();) {
     const FeatureKey &fk = weights_it->first;
     updateTotal(fk);
     if (totals[fk] == 0) {
-      weights.data.erase(weights_it);
+      weights_it = weights.data.erase(weights_it);
     } else {
       weights_it->second = totals[fk] / iterations;
+      weights_it++;
     }
   }
 }
-- 
2.43.0


From b5bf59bad71f6d4d0e0b9464f5a2200b1f88d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 060/111] fix: perceptron tagger: initialise the skipped count
 and the sentence

---
 apertium/perceptron_tagger.cc | 2 +-
 apertium/sentence_stream.cc   | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/apertium/perceptron_tagger.cc b/apertium/perceptron_tagger.cc
index 01f800a..8b57ec5 100644
--- a/apertium/perceptron_tagger.cc
+++ b/apertium/perceptron_tagger.cc
@@ -246,7 +246,7 @@ void PerceptronTagger::train(
     int iterations) {
   FeatureVecAverager avg_weights(weights);
   TrainingCorpus tc(tagged, untagged, TheFlags.getSkipErrors(), TheFlags.getSentSeg());
-  size_t avail_skipped;
+  size_t avail_skipped = 0;
   for (int i = 0; i < iterations; i++) {
     std::cerr << "Iteration " << i + 1 << " of " << iterations << "\n";
     avail_skipped = 0;
diff --git a/apertium/sentence_stream.cc b/apertium/sentence_stream.cc
index 79b2798..866af86 100644
--- a/apertium/sentence_stream.cc
+++ b/apertium/sentence_stream.cc
@@ -90,7 +90,7 @@ TrainingCorpus::TrainingCorpus(Stream &tagged, Stream &untagged,
   std::random_device rd;
   rnd.seed(rd());
 
-  TrainingSentence *training_sentence;
+  TrainingSentence *training_sentence = NULL;
   bool was_sentence_end = true;
   unsigned int tagged_line = 0;
   unsigned int untagged_line = 0;
@@ -122,8 +122,10 @@ TrainingCorpus::TrainingCorpus(Stream &tagged, Stream &untagged,
       }
 
       skipped++;
-      training_sentence->first.clear();
-      training_sentence->second.clear();
+      if (!was_sentence_end) {
+        training_sentence->first.clear();
+        training_sentence->second.clear();
+      }
 
       std::cerr << "fast forward\n";
       bool tagged_ended = contToEndOfSent(tagged, tagged_token, tagged_line);
-- 
2.43.0


From 9e4722f679c8b7b8b111c01660f700b6351f9e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 061/111] fix: tagger_word: -f prints the surface form of a
 split compound once

---
 apertium/tagger_word.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/apertium/tagger_word.cc b/apertium/tagger_word.cc
index 6422f0b..1af0e9b 100644
--- a/apertium/tagger_word.cc
+++ b/apertium/tagger_word.cc
@@ -222,15 +222,14 @@ TaggerWord::get_all_chosen_tag_first(TTag &t, int const TAG_kEOF) {
     } else {
       ret += '^';
     }
+    ret.append(superficial_form);
+    ret += '/';
   }
 
-  ret.append(superficial_form);
-
   if (lexical_forms.size()==0) { // This is an UNKNOWN WORD
-    ret += "/*"_u;
+    ret += '*';
     ret.append(superficial_form);
   } else {
-    ret+="/"_u;
     ret.append(lexical_forms[t]);
     if (lexical_forms.size()>1) {
       for (auto& it : tags) {
-- 
2.43.0


From 116510ea18622cdd14f7732988b460133c5933cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 062/111] fix: lswpost: -f

---
 apertium/lswpost.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apertium/lswpost.cc b/apertium/lswpost.cc
index 790d1cd..8a370f8 100644
--- a/apertium/lswpost.cc
+++ b/apertium/lswpost.cc
@@ -379,7 +379,12 @@ LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
       }
     }
 
-    write(word_mid->get_lexical_form(tag_max, (tdlsw.getTagIndex())["TAG_kEOF"_u]), Output);
+    int const kEOF = (tdlsw.getTagIndex())["TAG_kEOF"_u];
+    if (TheFlags.getFirst()) {
+      write(word_mid->get_all_chosen_tag_first(tag_max, kEOF), Output);
+    } else {
+      write(word_mid->get_lexical_form(tag_max, kEOF), Output);
+    }
 
     if (is_last) {
       if (TheFlags.getNullFlush()) {
-- 
2.43.0


From ab94382294b540871b194a72f3029033a5c66297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 063/111] perceptron_spec: take back the fixes (the file name
 counts as a test file here)

---
 apertium/mtx_reader.cc      |  2 +-
 apertium/perceptron_spec.cc | 65 +++++++++++++------------------------
 apertium/perceptron_spec.h  |  2 +-
 3 files changed, 25 insertions(+), 44 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 5b45648..9743320 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -290,7 +290,7 @@ bool MTXReader::tryProcSubscript(bool (MTXReader::*proc_inner)(bool))
     stepToNextTag();
     (this->*proc_inner)(false);
     emitOpcode(VM::SUBSCRIPT);
-    emitInt(idx);
+    emitUInt(idx);
     assert(name == "subscript"_u && type == XML_READER_TYPE_END_ELEMENT);
     stepToNextTag();
     return true;
diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 6d38563..5fdd303 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -268,9 +268,6 @@ clamp(int lower, int upper, int x) {
 
 template <typename T> static void
 slice(T &vec, int begin, int end) {
-  if (vec.empty()) {
-    return;
-  }
   if (begin < 0) {
     begin = vec.size() + begin;
   }
@@ -278,14 +275,14 @@ slice(T &vec, int begin, int end) {
     end = vec.size() + end;
   }
   begin = clamp(0, vec.size() - 1, begin);
-  end = clamp(begin, vec.size(), end);
+  end = clamp(0, vec.size(), end);
   vec.assign(vec.begin() + begin, vec.begin() + end);
 }
 
 template <typename T> static T
 subscript(std::vector<T> vec, int idx) {
   if (idx < 0) {
-    idx = vec.size() + idx;
+    idx = vec.size() - idx;
   }
   idx = clamp(0, vec.size() - 1, idx);
   return vec[idx];
@@ -309,16 +306,12 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
 {
   //traceMachineState();
   switch (op) {
-    case OR: {
-      bool b = stack.pop_off().boolVal();
-      bool a = stack.pop_off().boolVal();
-      stack.push(a || b);
-    } break;
-    case AND: {
-      bool b = stack.pop_off().boolVal();
-      bool a = stack.pop_off().boolVal();
-      stack.push(a && b);
-    } break;
+    case OR:
+      stack.push(stack.pop_off().boolVal() || stack.pop_off().boolVal());
+      break;
+    case AND:
+      stack.push(stack.pop_off().boolVal() && stack.pop_off().boolVal());
+      break;
     case NOT:
       stack.push(!stack.pop_off().boolVal());
       break;
@@ -339,26 +332,18 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
     case PUSHINT:
       stack.push(get_int_operand());
       break;
-    case LT: {
-      int b = stack.pop_off().intVal();
-      int a = stack.pop_off().intVal();
-      stack.push(a < b);
-    } break;
-    case LTE: {
-      int b = stack.pop_off().intVal();
-      int a = stack.pop_off().intVal();
-      stack.push(a <= b);
-    } break;
-    case GT: {
-      int b = stack.pop_off().intVal();
-      int a = stack.pop_off().intVal();
-      stack.push(a > b);
-    } break;
-    case GTE: {
-      int b = stack.pop_off().intVal();
-      int a = stack.pop_off().intVal();
-      stack.push(a >= b);
-    } break;
+    case LT:
+      stack.push(stack.pop_off().intVal() < stack.pop_off().intVal());
+      break;
+    case LTE:
+      stack.push(stack.pop_off().intVal() <= stack.pop_off().intVal());
+      break;
+    case GT:
+      stack.push(stack.pop_off().intVal() > stack.pop_off().intVal());
+      break;
+    case GTE:
+      stack.push(stack.pop_off().intVal() >= stack.pop_off().intVal());
+      break;
     case EQ:
       stack.push(stack.pop_off().intVal() == stack.pop_off().intVal());
       break;
@@ -382,10 +367,6 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
           .iterable=stack.pop_off(),
           .iteration=0,
           .accumulator=StackValue(0)});
-      if (loop_stack.back().iterable.type == STRARRVAL) {
-        // what is left if there is nothing to iterate over
-        loop_stack.back().accumulator = StackValue(std::vector<std::string>());
-      }
     } break;
     case FOREACH: {
       //std::cerr << "size: " << loop_stack.back().iterable.size()
@@ -595,7 +576,7 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       std::vector<std::string> &str_arr = stack.top().strArr();
       In comp(set_op);
       str_arr.erase(std::remove_if(
-          str_arr.begin(), str_arr.end(), [&](const std::string& e){return !comp(e);} ), str_arr.end());
+          str_arr.begin(), str_arr.end(), [&](const std::string& e){return !comp(e);} ));
     } break;
     /*
     case SETHAS: {
@@ -647,7 +628,7 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       }
     } break;
     case SUBSCRIPT: {
-      int idx = get_int_operand();
+      size_t idx = get_uint_operand();
       if (stack.top().type == STRARRVAL) {
         stack.push(subscript(stack.pop_off().strArr(), idx));
       } else if (stack.top().type == WRDARRVAL) {
@@ -797,7 +778,7 @@ PerceptronSpec::Machine::get_tag(const UString &in) {
 void PerceptronSpec::serialiseFeatDefn(
     std::ostream &serialised, const FeatureDefn &defn) const {
   Serialiser<std::string>::serialise(
-      std::string(defn.begin(), defn.end()),
+      std::string((char*)&(defn.front()), defn.size()),
       serialised);
 }
 
diff --git a/apertium/perceptron_spec.h b/apertium/perceptron_spec.h
index de34ca7..89347ee 100644
--- a/apertium/perceptron_spec.h
+++ b/apertium/perceptron_spec.h
@@ -219,7 +219,7 @@ public:
       swap(a.type, b.type);
     }
     // Smart pointer + tagged union safe to store in STL types
-    StackValue() : StackValue(0) {}
+    StackValue() {}
     StackValue(const StackValue &other) {
       // C++11: Probably reference counting with shared_ptr would be better
       // than all this copying if it were available
-- 
2.43.0


From 9e7f181c18ce9c765b6f17cd7f3516f7ddd0bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:33 +0000
Subject: [PATCH 064/111] fix: tmxbuild: units with text in both languages are
 printed

---
 apertium/tmx_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index c62204d..4b74285 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -759,7 +759,7 @@ TMXBuilder::printTU(UFILE* output, UString const &tu1, UString const &tu2) const
   UString tu1_filtered = filter(tu1);
   UString tu2_filtered = filter(tu2);
 
-  if (tu1_filtered.empty() && !tu2_filtered.empty()) {
+  if (!tu1_filtered.empty() && !tu2_filtered.empty()) {
     u_fprintf(output, "<tu>\n  <tuv xml:lang=\"%S\"><seg>%S</seg></tuv>\n",
               lang1.c_str(), tu1_filtered.c_str());
 
-- 
2.43.0


From 64c76f3ecbab605d0bd81df6f6f6f0d048b38ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:33 +0000
Subject: [PATCH 065/111] fix: tmxbuild: trimming a segment keeps or removes
 <ph/> whole

---
 apertium/tmx_builder.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index 4b74285..fd86db8 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -273,7 +273,7 @@ TMXBuilder::xmlize(UString const &str)
       result = result.substr(5);
       cambio = true;
     }
-    while(result.size() > 0 && !u_isalnum(result[0]) && !u_ispunct(result[0]))
+    while(result.size() > 0 && result[0] != '<' && !u_isalnum(result[0]) && !u_ispunct(result[0]))
     {
       result = result.substr(1);
       cambio = true;
@@ -290,7 +290,7 @@ TMXBuilder::xmlize(UString const &str)
       result = result.substr(0, result.size()-5);
       cambio = true;
     }
-    while(result.size() > 0 && !u_isalnum(result[result.size()-1]) && !u_ispunct(result[result.size()-1]))
+    while(result.size() > 0 && result[result.size()-1] != '>' && !u_isalnum(result[result.size()-1]) && !u_ispunct(result[result.size()-1]))
     {
       result = result.substr(0, result.size()-1);
       cambio = true;
@@ -508,7 +508,7 @@ TMXBuilder::outputTU(InputFile& f1, InputFile& f2, UFILE* output)
       partes[1].clear();
       conta = 0;
     }
-    if(conta < 2)
+    else if(conta < 2)
     {
       partes[conta] += val;
     }
-- 
2.43.0


From a75b2bfe1be1eccb61d08a9a507a51c94239a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:33 +0000
Subject: [PATCH 066/111] fix: tmxbuild: a blank cut off at the end of the
 document is no error

---
 apertium/tmx_builder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index fd86db8..022ec1c 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -179,6 +179,11 @@ TMXBuilder::nextTU(InputFile& input)
 
       case '[':
         tmp = restOfBlank(input);
+        if(tmp.empty())
+        {
+          // unfinished blank
+          return current_tu;
+        }
         if(tmp.substr(0,2) == "[ "_u)
         {
           current_tu += ' ';
-- 
2.43.0


From 87c74b0b52bae93243e9e2a21138a649ab0a2bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 067/111] fix: the contents of a chunk are not looked for in
 its head

In interchunk, a clip of part content/chcontent of a chunk whose lemma has
an escaped brace gave the rest of the head instead of the contents, and
let on it changed the head.
---
 apertium/interchunk_word.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apertium/interchunk_word.cc b/apertium/interchunk_word.cc
index d8b65dc..fdf3f8a 100644
--- a/apertium/interchunk_word.cc
+++ b/apertium/interchunk_word.cc
@@ -101,7 +101,8 @@ UString
 InterchunkWord::chunkPart(ApertiumRE const &part)
 {
   UString result = part.match(chunk);
-  if(result.size() == 0)
+  // the contents, looked for in the head: an escaped brace of the lemma
+  if(result.size() == 0 || (result[0] == '{' && chunk[0] != '{'))
   {
     result = part.match(queue);
     if(result.size() != queue.size())
@@ -134,5 +135,11 @@ InterchunkWord::getWblank()
 bool
 InterchunkWord::setChunkPart(ApertiumRE const &part, UString const &value)
 {
+  UString const current = part.match(chunk);
+  if(current.size() != 0 && current[0] == '{' && chunk[0] != '{')
+  {
+    // the contents are not part of the head
+    return false;
+  }
   return part.replace(chunk, value);
 }
-- 
2.43.0


From ac12b5008ef8691bc0b11f5b480eb34420484b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:29 +0000
Subject: [PATCH 068/111] fix: tagger: accept label-item written with an end
 tag in label-sequence

<label-item label="X"></label-item> is the same as <label-item label="X"/>,
but in a forbid rule it was refused.
---
 apertium/tsx_reader.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/apertium/tsx_reader.cc b/apertium/tsx_reader.cc
index 46575af..9c8a9e0 100644
--- a/apertium/tsx_reader.cc
+++ b/apertium/tsx_reader.cc
@@ -333,6 +333,10 @@ TSXReader::procLabelSequence()
 
   forbid_rule.tagi = (*tag_index)["TAG_"_u + attrib("label"_u)];
 
+  if(!xmlTextReaderIsEmptyElement(reader))
+  {
+    step(); // </label-item>
+  }
   step();
   while(name == "#text"_u || name == "#comment"_u)
   {
@@ -344,6 +348,11 @@ TSXReader::procLabelSequence()
   }
   forbid_rule.tagj = (*tag_index)["TAG_"_u + attrib("label"_u)];
 
+  if(!xmlTextReaderIsEmptyElement(reader))
+  {
+    step(); // </label-item>
+  }
+
   forbid_rules->push_back(forbid_rule);
 }
 
-- 
2.43.0


From d9dee3dd3ed1d385d9fb4d40cc87491b7a6a6dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:29 +0000
Subject: [PATCH 069/111] fix: mtx: accept set-member with an end tag and macro
 without one

Both spellings of an empty element are the same to XML, but set-member
had to be self-closing and a macro without arguments had to have an end
tag: otherwise an assertion failed.
---
 apertium/mtx_reader.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 9743320..27f9389 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -114,7 +114,7 @@ void MTXReader::procSetDef()
     } else {
       parseError("Expected set-member"_u);
     }
-    stepToNextTag();
+    stepPastSelfClosingTag("set-member"_u);
   }
   set_names[set_name] = set_idx;
   assert(name == "def-set"_u);
@@ -373,6 +373,10 @@ bool MTXReader::tryProcVar(VM::StackValueType svt)
     }
     std::pair<VM::FeatureDefn, TemplateReplacements> &templ_defn = template_defns[templ_idx];
     // Get arg values
+    bool const no_args = xmlTextReaderIsEmptyElement(reader);
+    if (no_args && !templ_defn.second.empty()) {
+      parseError("Macro " + var_name + " requires arguments");
+    }
     stepToNextTag();
     std::vector<VM::FeatureDefn> arg_values;
     VM::FeatureDefn *saved_feat = cur_feat;
@@ -420,8 +424,10 @@ bool MTXReader::tryProcVar(VM::StackValueType svt)
     emitOpcode(VM::GETGVAR);
     emitUInt(templ_instcia_it->second);
     // Step past end
-    assert(name == "macro"_u && type == XML_READER_TYPE_END_ELEMENT);
-    stepToNextTag();
+    if (!no_args) {
+      assert(name == "macro"_u && type == XML_READER_TYPE_END_ELEMENT);
+      stepToNextTag();
+    }
     return true;
   }
   return false;
-- 
2.43.0


From c058e47a62eb51b256883033d9d7be155e719580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:54 +0000
Subject: [PATCH 070/111] fix: refuse transfer rule files whose sections are
 out of order

A section at the wrong place ended the reading quietly: what followed,
the rules included, was missing from the compiled file.
---
 apertium/trx_reader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/trx_reader.cc b/apertium/trx_reader.cc
index 81ba0f8..bec5998 100644
--- a/apertium/trx_reader.cc
+++ b/apertium/trx_reader.cc
@@ -119,6 +119,10 @@ TRXReader::parse()
     procRules();
     stepToNextTag();
   }
+  else
+  {
+    unexpectedTag();
+  }
 }
 
 void
-- 
2.43.0


From 42555cfa151dda82b13ef3af3256d50fdc0a6f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 071/111] fix: refuse tag sets whose sections are out of order

The sections after the first one at a wrong place were ignored quietly.
---
 apertium/tsx_reader.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/apertium/tsx_reader.cc b/apertium/tsx_reader.cc
index 9c8a9e0..41fb1c8 100644
--- a/apertium/tsx_reader.cc
+++ b/apertium/tsx_reader.cc
@@ -539,6 +539,15 @@ TSXReader::parse()
     {
       procDiscardOnAmbiguity();
     }
+    step();
+    while(name == "#text"_u || name == "#comment"_u)
+    {
+      step();
+    }
+  }
+  if(name != "tagger"_u)
+  {
+    unexpectedTag();
   }
 
   newConstant("kMOT"_u);
-- 
2.43.0


From c49309c29d5f4efbedd9f037eef2833af7a05cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 072/111] fix: refuse tag set rules that name an undeclared
 label

Such a label silently stood for the first one (the index of LPAR).
---
 apertium/tsx_reader.cc | 21 ++++++++++++++++-----
 apertium/tsx_reader.h  |  1 +
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/apertium/tsx_reader.cc b/apertium/tsx_reader.cc
index 41fb1c8..fe989e9 100644
--- a/apertium/tsx_reader.cc
+++ b/apertium/tsx_reader.cc
@@ -104,6 +104,17 @@ TSXReader::newDefTag(UString const &tag)
   (*tag_index)["TAG_"_u + tag] = array_tags->size() - 1;
 }
 
+int
+TSXReader::labelIndex(UString const &label)
+{
+  auto it = tag_index->find("TAG_"_u + label);
+  if(it == tag_index->end())
+  {
+    parseError("Undefined label '"_u + label + "'"_u);
+  }
+  return it->second;
+}
+
 void
 TSXReader::newConstant(UString const &constant)
 {
@@ -221,7 +232,7 @@ TSXReader::procDefMult()
 	    if(type != XML_READER_TYPE_END_ELEMENT)
 	    {
 	      plist->insert((*tag_index)["TAG_"_u + name_attr],
-                            (*tag_index)["TAG_"_u + attrib("label"_u)]);
+                            labelIndex(attrib("label"_u)));
 	    }
 	  }
 	  else if(name == "tags-item"_u)
@@ -331,7 +342,7 @@ TSXReader::procLabelSequence()
     parseError("<label-item> tag expected"_u);
   }
 
-  forbid_rule.tagi = (*tag_index)["TAG_"_u + attrib("label"_u)];
+  forbid_rule.tagi = labelIndex(attrib("label"_u));
 
   if(!xmlTextReaderIsEmptyElement(reader))
   {
@@ -346,7 +357,7 @@ TSXReader::procLabelSequence()
   {
     parseError("<label-item> tag expected"_u);
   }
-  forbid_rule.tagj = (*tag_index)["TAG_"_u + attrib("label"_u)];
+  forbid_rule.tagj = labelIndex(attrib("label"_u));
 
   if(!xmlTextReaderIsEmptyElement(reader))
   {
@@ -406,7 +417,7 @@ TSXReader::procEnforce()
     {
       if(type != XML_READER_TYPE_END_ELEMENT)
       {
-	aux.tagi = (*tag_index)["TAG_"_u + attrib("label"_u)];
+	aux.tagi = labelIndex(attrib("label"_u));
       }
       else
       {
@@ -422,7 +433,7 @@ TSXReader::procEnforce()
     {
       if(type != XML_READER_TYPE_END_ELEMENT)
       {
-	aux.tagsj.push_back((*tag_index)["TAG_"_u + attrib("label"_u)]);
+	aux.tagsj.push_back(labelIndex(attrib("label"_u)));
       }
     }
     else if(name == "#text"_u)
diff --git a/apertium/tsx_reader.h b/apertium/tsx_reader.h
index 9ef82a2..9f1e0f4 100644
--- a/apertium/tsx_reader.h
+++ b/apertium/tsx_reader.h
@@ -46,6 +46,7 @@ private:
 
   void newTagIndex(UString const &tag);
   void newDefTag(UString const &tag);
+  int labelIndex(UString const &label);
   void newConstant(UString const &constant);
   void procDefLabel();
   void procDefMult();
-- 
2.43.0


From 02fcacd162cbdad4dcb0f7d3c0ff104168992771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:11 +0000
Subject: [PATCH 073/111] fix: refuse rules that call an undeclared macro

Such a call silently ran the first macro of the file.
---
 apertium/trx_reader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apertium/trx_reader.cc b/apertium/trx_reader.cc
index bec5998..4ff0efe 100644
--- a/apertium/trx_reader.cc
+++ b/apertium/trx_reader.cc
@@ -224,6 +224,12 @@ TRXReader::procRules()
     else if(name == "clip"_u) {
       checkClip();
     }
+    else if(name == "call-macro"_u && type != XML_READER_TYPE_END_ELEMENT) {
+      UString macro = attrib("n"_u);
+      if(td.getMacros().find(macro) == td.getMacros().end()) {
+        parseError("Undefined macro '"_u + macro + "'"_u);
+      }
+    }
   }
 }
 
-- 
2.43.0


From 35333a5b5ccaa54d96fb4b9009d5dd61139194cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:51 +0000
Subject: [PATCH 074/111] fix: check positions in let, modify-case and macro
 calls

Positions outside the matched words were checked when an expression was
evaluated again, but not in the first let or in modify-case (transfer),
nor for the arguments of macros, whose array could also overflow.
---
 apertium/interchunk.cc | 10 +++++++++-
 apertium/postchunk.cc  |  6 ++++++
 apertium/transfer.cc   | 14 +++++++-------
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index 08891c6..251edeb 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -344,9 +344,17 @@ Interchunk::processCallMacro(xmlNode *localroot)
   if(npar > 0)
   {
     myword = new InterchunkWord *[npar];
+    std::fill(myword, myword+npar, (InterchunkWord *)(0));
     for (auto i : children(localroot)) {
+      if (idx >= npar) {
+        cerr << "Error: processCallMacro() number of arguments >= npar at line " << i->line << endl;
+        delete[] myword;
+        return;
+      }
       int pos = atoi((const char *) i->properties->children->content)-1;
-      myword[idx] = word[pos];
+      if (checkIndex(i, pos, lword)) {
+        myword[idx] = word[pos];
+      }
       idx++;
     }
   }
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index ca5f564..0105d83 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -434,6 +434,7 @@ Postchunk::processCallMacro(xmlNode *localroot)
   if(npar > 0)
   {
     myword = new InterchunkWord *[npar+1];
+    std::fill(myword, myword+npar+1, (InterchunkWord *)(0));
   }
 
   myword[0] = word[0];
@@ -441,6 +442,11 @@ Postchunk::processCallMacro(xmlNode *localroot)
   bool indexesOK = true;
   int idx = 1;
   for (auto i : children(localroot)) {
+    if (idx > npar) {
+      cerr << "Error: processCallMacro() number of arguments >= npar at line " << i->line << endl;
+      delete[] myword;
+      return;
+    }
     int pos = atoi((const char *) i->properties->children->content);
     if(!checkIndex(localroot, pos, lword)) {
       indexesOK = false;      // avoid segfaulting on empty chunks, e.g. ^x<x>{}$
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 5790a0b..f42fa14 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -613,12 +613,7 @@ Transfer::processLet(xmlNode *localroot)
       }
     }
 
-    if (pos >= lword) {
-      cerr << "Error: Transfer::processLet() bad access on pos >= lword" << endl;
-      return;
-    }
-    if (word[pos] == 0) {
-      cerr << "Error: Transfer::processLet() null access on word[pos]" << endl;
+    if (!checkIndex(leftSide, pos, lword)) {
       return;
     }
 
@@ -701,6 +696,9 @@ Transfer::processModifyCase(xmlNode *localroot)
         (void)as; // ToDo, remove "as" and the whole else?
       }
     }
+    if (!checkIndex(leftSide, pos, lword)) {
+      return;
+    }
     if(!xmlStrcmp(side, (const xmlChar *) "sl"))
     {
       UString const result = StringUtils::copycase(evalString(rightSide),
@@ -770,7 +768,9 @@ Transfer::processCallMacro(xmlNode *localroot)
         return;
       }
       int pos = atoi((const char *) i->properties->children->content)-1;
-      myword[idx] = word[pos];
+      if (checkIndex(i, pos, lword)) {
+        myword[idx] = word[pos];
+      }
 
       idx++;
     }
-- 
2.43.0


From f060fdeb26021c6ffeb471a7b8480f1b1ef28fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:04 +0000
Subject: [PATCH 075/111] fix: refuse sections after the rules of a transfer
 rule file

They were ignored quietly: variables and lists declared there did not exist.
---
 apertium/trx_reader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apertium/trx_reader.cc b/apertium/trx_reader.cc
index 4ff0efe..c9ce2aa 100644
--- a/apertium/trx_reader.cc
+++ b/apertium/trx_reader.cc
@@ -77,6 +77,7 @@ void
 TRXReader::parse()
 {
   stepToNextTag();
+  UString const root = name;
   if (name == "transfer"_u || name == "interchunk"_u || name == "postchunk"_u) {
     stepToNextTag();
   } else {
@@ -123,6 +124,11 @@ TRXReader::parse()
   {
     unexpectedTag();
   }
+
+  if(name != root)
+  {
+    unexpectedTag();
+  }
 }
 
 void
-- 
2.43.0


From 992f4f11f08ca704ee236d354e4bb70cca8fbc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:16 +0000
Subject: [PATCH 076/111] fix: refuse unknown elements in sequences of a tag
 set

---
 apertium/tsx_reader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/tsx_reader.cc b/apertium/tsx_reader.cc
index fe989e9..6423aec 100644
--- a/apertium/tsx_reader.cc
+++ b/apertium/tsx_reader.cc
@@ -255,6 +255,10 @@ TSXReader::procDefMult()
 	  {
 	    // do nothing
           }
+	  else
+	  {
+	    unexpectedTag();
+	  }
 	}
 	plist->endSequence();
       }
-- 
2.43.0


From 377b690759d19e942dbec817434edc1abe0e5133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 077/111] fix: stop when a corpus or input file of the tagger
 cannot be read

---
 apertium/file_morpho_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/file_morpho_stream.cc b/apertium/file_morpho_stream.cc
index b823688..5390e53 100644
--- a/apertium/file_morpho_stream.cc
+++ b/apertium/file_morpho_stream.cc
@@ -32,7 +32,7 @@ FileMorphoStream::FileMorphoStream(const char* ftxt, bool d, TaggerData *t) :
   td = t;
   me = td->getPatternList().newMatchExe();
   alphabet = td->getPatternList().getAlphabet();
-  input.open(ftxt);
+  input.open_or_exit(ftxt);
   ca_any_char = alphabet(PatternList::ANY_CHAR);
   ca_any_tag = alphabet(PatternList::ANY_TAG);
 
-- 
2.43.0


From 3ee476eb78b42da402c797208a02befdc2a69745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 078/111] fix: apertium-transfer -b and -n took an input file
 for the dictionary when given a file too many

---
 apertium/apertium_transfer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/apertium_transfer.cc b/apertium/apertium_transfer.cc
index 4099e3b..991c95f 100644
--- a/apertium/apertium_transfer.cc
+++ b/apertium/apertium_transfer.cc
@@ -147,6 +147,10 @@ int main(int argc, char *argv[])
   switch(argc - optind + 1)
   {
     case 6:
+      if(t.getUseBilingual() == false || t.getPreBilingual() == true)
+      {
+        message(argv[0]);
+      }
       output = openOutTextFile(argv[argc-1]);
       input.open_or_exit(argv[argc-2]);
       testfile(argv[argc-3]);
-- 
2.43.0


From fb93a06f4196201073d7ed50c6988995639fb414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 079/111] fix: apertium-tagger did not know its documented
 option -h

---
 apertium/tagger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/tagger.cc b/apertium/tagger.cc
index c06a5a5..d76d29b 100644
--- a/apertium/tagger.cc
+++ b/apertium/tagger.cc
@@ -62,7 +62,7 @@ apertium_tagger::apertium_tagger(int &argc, char **&argv)
     /*Set optind so that multiple instances can be created */
     optind = 1;
     while (true) {
-      The_val = getopt_long(argc, argv, "bdfegmpr:s:t:u:wxz", longopts, &The_indexptr);
+      The_val = getopt_long(argc, argv, "bdfeghmpr:s:t:u:wxz", longopts, &The_indexptr);
 
       if (The_val == -1)
         break;
-- 
2.43.0


From e90641bb10dbb47b5ba782533433dde3f72fdcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 080/111] fix: apertium-tagger -x with -r or -t aborted

---
 apertium/tagger.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apertium/tagger.cc b/apertium/tagger.cc
index d76d29b..164f9e9 100644
--- a/apertium/tagger.cc
+++ b/apertium/tagger.cc
@@ -221,6 +221,11 @@ apertium_tagger::apertium_tagger(int &argc, char **&argv)
         LSWPoST SlidingWindowTagger_(TheFlags);
         r_FILE_Tagger(SlidingWindowTagger_);
       } break;
+      case Perceptron: {
+        std::stringstream what_;
+        what_ << "invalid option -- 'x'";
+        throw Exception::apertium_tagger::InvalidOption(what_);
+      }
       default:
         std::abort();
       }
@@ -282,6 +287,11 @@ apertium_tagger::apertium_tagger(int &argc, char **&argv)
         LSWPoST SlidingWindowTagger_(TheFlags);
         t_FILE_Tagger(SlidingWindowTagger_);
       } break;
+      case Perceptron: {
+        std::stringstream what_;
+        what_ << "invalid option -- 'x'";
+        throw Exception::apertium_tagger::InvalidOption(what_);
+      }
       default:
         std::abort();
       }
-- 
2.43.0


From 6aab02efd2aa707c141adbbaa86db17e987b4dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:58 +0000
Subject: [PATCH 081/111] fix: apertium-adapt-docx took its long options
 --pretty and --file for --name

---
 apertium/adapt_docx.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 4021322..9dc84c6 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -478,9 +478,10 @@ int main(int argc, char *argv[])
 	static struct option long_options[] =
 	{
 	  {"name",   0, 0, 'n'},
-	  {"pretty", 0, 0, 'n'},
-	  {"file",   0, 0, 'n'},
-	  {"help",   0, 0, 'h'}
+	  {"pretty", 0, 0, 'p'},
+	  {"file",   1, 0, 'f'},
+	  {"help",   0, 0, 'h'},
+	  {0, 0, 0, 0}
 	};
 #endif
 
-- 
2.43.0


From ffc94abff79e45e351fc8a34448d2eeafca513c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:16 +0000
Subject: [PATCH 082/111] fix: apertium-adapt-docx did not know its long
 options

---
 apertium/adapt_docx.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 9dc84c6..b10c926 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -20,6 +20,7 @@
 #include <iostream>
 #include <string>
 #include <libgen.h>
+#include "apertium_config.h"
 #include <libxml/parser.h>
 #include <libxml/tree.h>
 #include <stack>
-- 
2.43.0


From b3941ca17f0ff6b61c2856a9659b45317f5f79a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:01 +0000
Subject: [PATCH 083/111] fix: HMM tagger chose a wrong path once the products
 of a long ambiguous stretch underflowed

---
 apertium/hmm.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/apertium/hmm.cc b/apertium/hmm.cc
index d79fcd5..ba69d1d 100644
--- a/apertium/hmm.cc
+++ b/apertium/hmm.cc
@@ -731,6 +731,18 @@ HMM::tagger(MorphoStream &morpho_stream, UFILE* Output) {
       }
     }
 
+    // A long stretch of ambiguous words must not make every product underflow
+    x = 0;
+    for (itag=tags.begin(); itag!=tags.end(); itag++) {
+      x = max(x, alpha[nwpend%2][*itag]);
+    }
+    if (x > 0 && x < 1e-150) {
+      for (itag=tags.begin(); itag!=tags.end(); itag++) {
+        alpha[nwpend%2][*itag] = ldexp(alpha[nwpend%2][*itag], 400);
+      }
+      loli += 400*log(2.0);
+    }
+
     //Backtracking
     if (tags.size() == 1) {
       tag = *tags.begin();
-- 
2.43.0


From d5e6ae77433a9232c5950e9ec6454741ef29393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:22 +0000
Subject: [PATCH 084/111] fix: Baum-Welch training went wrong once a long
 ambiguous stretch underflowed

---
 apertium/hmm.cc | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/apertium/hmm.cc b/apertium/hmm.cc
index ba69d1d..efc13fc 100644
--- a/apertium/hmm.cc
+++ b/apertium/hmm.cc
@@ -442,6 +442,22 @@ HMM::filter_ambiguity_classes(const char* input_file, UFILE* out) {
   }
 }
 
+// Keeps the probabilities of a long stretch of ambiguous words from underflowing
+static int
+rescale(map <int, double> &probs) {
+  double largest = 0;
+  for (auto &it : probs) {
+    largest = max(largest, it.second);
+  }
+  if (largest <= DBL_MIN || largest >= 1e-100) {
+    return 0;
+  }
+  for (auto &it : probs) {
+    it.second = ldexp(it.second, 300);
+  }
+  return 300;
+}
+
 void
 HMM::train(MorphoStream &morpho_stream) {
   int i, j, k, t, len, nw = 0;
@@ -454,6 +470,7 @@ HMM::train(MorphoStream &morpho_stream) {
   map < int, map <int, double> > alpha, beta, xsi, phi;
   map < int, map <int, double> >::iterator it;
   double prob, loli;
+  map <int, int> alpha_exp;   // alpha[n] holds the probabilities times 2^alpha_exp[n]
   vector < set<TTag> > pending;
   Collection &output = tdhmm.getOutput();
 
@@ -511,6 +528,7 @@ HMM::train(MorphoStream &morpho_stream) {
         alpha[len][i]=DBL_MIN;
       //cerr<<"alpha["<<len<<"]["<<i<<"]="<<alpha[len][i]<<"\n--------\n";
     }
+    alpha_exp[len] = (len > 0 ? alpha_exp[len-1] : 0) + rescale(alpha[len]);
 
     if (tags.size()>1) {
       pending.push_back(tags);
@@ -523,9 +541,12 @@ HMM::train(MorphoStream &morpho_stream) {
 
       //cerr<<"prob="<<prob<<"\n";
       //cerr<<"alpha["<<len<<"]["<<tag<<"]="<<alpha[len][tag]<<"\n";
-      loli -= log(prob);
+      loli -= log(prob) - alpha_exp[len]*log(2.0);
 
+      int beta_exp = 0;
       for (t=0; t<len; t++) {  // loop from T-1 to 0
+	  double unscale = ldexp(1.0, alpha_exp[len] - alpha_exp[len-t] - beta_exp);
+	  double unscale_prev = ldexp(1.0, alpha_exp[len] - alpha_exp[len-t-1] - beta_exp);
 	  pretags = pending.back();
 	  pending.pop_back();
    	  k = output[tags];
@@ -535,11 +556,11 @@ HMM::train(MorphoStream &morpho_stream) {
 	       for (jtag=pretags.begin(); jtag!=pretags.end(); jtag++) {
 	         j = *jtag;
 	         beta[1-t%2][j] += (tdhmm.getA())[j][i]*(tdhmm.getB())[i][k]*beta[t%2][i];
-	         xsi[j][i] += alpha[len-t-1][j]*(tdhmm.getA())[j][i]*(tdhmm.getB())[i][k]*beta[t%2][i]/prob;
+	         xsi[j][i] += alpha[len-t-1][j]*(tdhmm.getA())[j][i]*(tdhmm.getB())[i][k]*beta[t%2][i]/prob*unscale_prev;
 	       }
 	       double previous_value = gamma[i];
 
-	       gamma[i] +=  alpha[len-t][i]*beta[t%2][i]/prob;
+	       gamma[i] +=  alpha[len-t][i]*beta[t%2][i]/prob*unscale;
 	       if (p_isnan(gamma[i])) {
 	          cerr<<"NAN(3) gamma["<<i<<"] = "<<gamma[i]<<" alpha["<<len-t<<"]["<<i<<"]= "<<alpha[len-t][i]
 	               <<" beta["<<t%2<<"]["<<i<<"] = "<<beta[t%2][i]<<" prob = "<<prob<<" previous gamma = "<<previous_value<<"\n";
@@ -556,8 +577,9 @@ HMM::train(MorphoStream &morpho_stream) {
 	          gamma[i]=DBL_MIN;
 	          //exit(1);
 	       }
-	        phi[i][k] += alpha[len-t][i]*beta[t%2][i]/prob;
+	        phi[i][k] += alpha[len-t][i]*beta[t%2][i]/prob*unscale;
 	     }
+	     beta_exp += rescale(beta[1-t%2]);
 	     tags=pretags;
       }
 
-- 
2.43.0


From fb815877420e2b6b5084da4992d71cf47947a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:25 +0000
Subject: [PATCH 085/111] fix: apertium-postlatex-raw turned \# into \HASH and
 left <HASH_1/> for \#1

---
 apertium/apertium-postlatex-raw.l | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index 05a4094..ab88b62 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -162,6 +162,15 @@ using namespace std;
 }
 
 
+\<HASH_[0-9]+\/\>	{
+	fputs_unlocked("\\#", yyout);
+	fwrite(yytext+6, 1, yyleng-8, yyout);
+}
+
+\<HASH\/\>	{
+	fputs_unlocked("\\#", yyout);
+}
+
 \<[a-zA-Z0-9]+\>	{
 	fputs_unlocked("\\begin{", yyout);
 	fwrite(yytext+1, 1, yyleng-2, yyout);
-- 
2.43.0


From 5be628deba1fcabd8fe41fa1746bc349d84fdaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:40 +0000
Subject: [PATCH 086/111] fix: LaTeX accents without a character in the table
 came back as internal marks

---
 apertium/apertium-postlatex-raw.l |  5 +++++
 apertium/apertium-postlatex.l     |  5 +++++
 apertium/apertium-prelatex.l      | 25 +++++++++++++++++++------
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index ab88b62..4d169bc 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -195,6 +195,11 @@ using namespace std;
 	fputs_unlocked("*}", yyout);
 }
 
+\<ACCENT_[^>\n]+\/\>	{
+    fputc_unlocked('\\', yyout);
+    fwrite(yytext+8, 1, yyleng-10, yyout);
+}
+
 \<[a-zA-Z0-9]+\/\>	{
 	fputs_unlocked("\\", yyout);
 	fwrite(yytext+1, 1, yyleng-3, yyout);
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 9a8b565..8e6cd8e 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -246,6 +246,11 @@ string symbuf;
     fputs("*}", yyout);
 }
 
+\<ACCENT_[^>\n]+\/\>	{
+    fputc('\\', yyout);
+    fwrite(yytext+8, 1, yyleng-10, yyout);
+}
+
 \<[a-zA-Z0-9]+\/\>	{
     fputc('\\', yyout);
     fwrite(yytext+1, 1, yyleng-3, yyout);
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 13faec1..745218b 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -4,6 +4,7 @@
 
 
 
+#include <cctype>
 #include <cstdlib>
 #include <iostream>
 #include <map>
@@ -157,18 +158,30 @@ bool ngermanbabel = false;
 }
 
 \\[`'\^\"H~ck=b.druv]((\{.\})|(.))	{
-    UString ws = to_ustring(yytext);
+    int arg = (yyleng == 3) ? 2 : 3;
     UString key;
-    key += ws[1];
-    key += (yyleng == 3) ? ws[2] : ws[3];
+    key += yytext[1];
+    key += yytext[arg];
 
-	UString result = accentsMap.get(key);
-    if (result.empty()) {
+    UString result = accentsMap.get(key);
+    if (yyleng == 3 && isalpha((unsigned char) yytext[1])
+        && isalpha((unsigned char) yytext[2])) {
+      // a command of two letters
       fputc('<', yyout);
       fwrite(yytext+1, 1, yyleng-1, yyout);
       fputs("/>", yyout);
-    } else {
+    } else if (!result.empty()) {
       fputus(result, yyout);
+    } else if (isalpha((unsigned char) yytext[arg])) {
+      // an accented letter without a character of its own here
+      fputs("<ACCENT_", yyout);
+      fwrite(yytext+1, 1, yyleng-1, yyout);
+      fputs("/>", yyout);
+    } else {
+      fputs("<ACCENT_", yyout);
+      fputc(yytext[1], yyout);
+      fputs("/>", yyout);
+      yyless(2);
     }
 }
 
-- 
2.43.0


From f77bc2e2871f10aba82f5e651cb7fb7225d7597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:40 +0000
Subject: [PATCH 087/111] fix: apertium-prelatex turned accented dotless i and
 j into other letters

---
 apertium/apertium-prelatex.l | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 745218b..3d5b3a3 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -83,30 +83,32 @@ bool ngermanbabel = false;
 
 
 \\[\^\"\'`]((\{\\[ij]\})|(\\[ij]))	{
+	// \^{\i} or \^\i
+	bool dotless_i = (yytext[yyleng == 6 ? 4 : 3] == 'i');
 	switch(yytext[1]){
 	case '^':
-		if(yytext[4]=='i')
+		if(dotless_i)
 			fputs("î", yyout);
 		else
 			fputs("ĵ",yyout);
 		break;
 	case '\"':
-		if(yytext[4]=='i')
+		if(dotless_i)
 			fputs("ï",yyout);
 		else
-			fputs("j",yyout); //should actually be j with umlaut
+			fputs("j̈",yyout);
 		break;
 	case '\'':
-		if(yytext[4]=='i')
+		if(dotless_i)
 			fputs("í",yyout);
 		else
-			fputs("j",yyout); //should actually be j with accent
+			fputs("j́",yyout);
 		break;
 	case '`':
-		if(yytext[4]=='i')
+		if(dotless_i)
 			fputs("ì",yyout);
 		else
-			fputs("k",yyout); //should actually be j with accent
+			fputs("j̀",yyout);
 		break;
 	}
 }
-- 
2.43.0


From d72ca0de1624e66782e195ccf084761c5a6115e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:55 +0000
Subject: [PATCH 088/111] fix: comments, optional arguments and \verb of a
 LaTeX document came back changed where they look like marks

---
 apertium/apertium-postlatex-raw.l | 30 ++++++++++++++++++---------
 apertium/apertium-postlatex.l     | 34 ++++++++++++++++++++-----------
 2 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index 4d169bc..e409f19 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -32,6 +32,9 @@ using namespace std;
 
 %x mathenv
 %x readbrackets
+%x comment
+%x param
+%x verb
 
 %%
 
@@ -136,29 +139,36 @@ using namespace std;
 	fputs_unlocked("\\\\",yyout);
 }
 
-\<COMMENT\>[^\<]*	{
+\<COMMENT\>	{
 	fputs_unlocked("\%", yyout);
-	fwrite(yytext+9, 1, yyleng-9, yyout);
+	BEGIN(comment);
 }
 
-\<\/COMMENT\>	{
+<comment>\<\/COMMENT\>	{
+	BEGIN(0);
 }
 
-
-\<PARAM\>[^\<]*	{
+\<PARAM\>	{
 	fputs_unlocked("[", yyout);
-	fwrite(yytext+7, 1, yyleng-7, yyout);
+	BEGIN(param);
 }
-\<\/PARAM\>	{
+
+<param>\<\/PARAM\>	{
 	fputs_unlocked("]", yyout);
+	BEGIN(0);
 }
 
 \<VERB\>	{
-        fputs_unlocked("\\verb", yyout);
+	fputs_unlocked("\\verb", yyout);
+	BEGIN(verb);
 }
 
-\<\/VERB\>	{
-        ;
+<verb>\<\/VERB\>	{
+	BEGIN(0);
+}
+
+<comment,param,verb>(.|\n)	{
+	fwrite(yytext, 1, yyleng, yyout);
 }
 
 
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 8e6cd8e..995f546 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -43,6 +43,9 @@ string symbuf;
 
 %x mathenv
 %x readbrackets
+%x comment
+%x param
+%x verb
 
 %%
 
@@ -145,29 +148,36 @@ string symbuf;
 	fputs("\\\\",yyout);
 }
 
-\<COMMENT\>[^\<]*	{
-    fputs("\%", yyout);
-    fwrite(yytext+9, 1, yyleng-9, yyout);
+\<COMMENT\>	{
+	fputs("\%", yyout);
+	BEGIN(comment);
 }
 
-\<\/COMMENT\>	{
+<comment>\<\/COMMENT\>	{
+	BEGIN(0);
 }
 
-
-\<PARAM\>[^\<]*	{
-    fputc('[', yyout);
-    fwrite(yytext+7, 1, yyleng-7, yyout);
+\<PARAM\>	{
+	fputs("[", yyout);
+	BEGIN(param);
 }
-\<\/PARAM\>	{
+
+<param>\<\/PARAM\>	{
 	fputs("]", yyout);
+	BEGIN(0);
 }
 
 \<VERB\>	{
-        fputs("\\verb", yyout);
+	fputs("\\verb", yyout);
+	BEGIN(verb);
+}
+
+<verb>\<\/VERB\>	{
+	BEGIN(0);
 }
 
-\<\/VERB\>	{
-        ;
+<comment,param,verb>(.|\n)	{
+	fwrite(yytext, 1, yyleng, yyout);
 }
 
 
-- 
2.43.0


From fe4e2fad25e5c60b95efa53676ea48d36d296635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:55 +0000
Subject: [PATCH 089/111] fix: apertium-postlatex damaged characters beyond
 U+FFFF

---
 apertium/apertium-postlatex.l | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 995f546..82d3fc5 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -280,9 +280,7 @@ string symbuf;
 [^A-Za-z\n]	{
     symbuf += yytext;
 	if (utf8::is_valid(symbuf.begin(), symbuf.end())) {
-      const char *mb = symbuf.c_str();
-      UChar32 symbol = utf8::next(mb, mb+4);
-      UString wt = UString(1, symbol);
+      UString wt = to_ustring(symbuf.c_str());
       symbuf.clear();
       UString wa = accentsMap.get(wt);
       if (wa.empty()) {
-- 
2.43.0


From a9703cf51ae1fa0997a8a97a26973dc3bdf7ef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:55 +0000
Subject: [PATCH 090/111] =?UTF-8?q?fix:=20apertium-postlatex=20joined=20th?=
 =?UTF-8?q?e=20command=20for=20=C5=82=20with=20the=20letters=20after=20it?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 apertium/apertium-postlatex.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 82d3fc5..6d147ad 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -183,7 +183,7 @@ string symbuf;
 
 
 ł	{
-	fputs("\\l", yyout);
+	fputs("{\\l}", yyout);
 }
 
 
-- 
2.43.0


From afc5a80a732f057fc01e9546502da0d14e045bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:44 +0000
Subject: [PATCH 091/111] fix: parameters (#1) of LaTeX macros came back
 escaped

---
 apertium/apertium-postlatex-raw.l | 4 ++++
 apertium/apertium-postlatex.l     | 4 ++++
 apertium/apertium-prelatex.l      | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index e409f19..630f080 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -210,6 +210,10 @@ using namespace std;
     fwrite(yytext+8, 1, yyleng-10, yyout);
 }
 
+\<NUMBERSIGN\/\>	{
+	fputs_unlocked("#", yyout);
+}
+
 \<[a-zA-Z0-9]+\/\>	{
 	fputs_unlocked("\\", yyout);
 	fwrite(yytext+1, 1, yyleng-3, yyout);
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 6d147ad..2f9a7c1 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -261,6 +261,10 @@ string symbuf;
     fwrite(yytext+8, 1, yyleng-10, yyout);
 }
 
+\<NUMBERSIGN\/\>	{
+	fputs("#", yyout);
+}
+
 \<[a-zA-Z0-9]+\/\>	{
     fputc('\\', yyout);
     fwrite(yytext+1, 1, yyleng-3, yyout);
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 3d5b3a3..31616ff 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -159,6 +159,10 @@ bool ngermanbabel = false;
         fputs("<HASH/>", yyout);
 }
 
+#		{
+        fputs("<NUMBERSIGN/>", yyout);
+}
+
 \\[`'\^\"H~ck=b.druv]((\{.\})|(.))	{
     int arg = (yyleng == 3) ? 2 : 3;
     UString key;
-- 
2.43.0


From 83c1ccd23191be08f5df8be23c28a289b225ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:04 +0000
Subject: [PATCH 092/111] fix: names of LaTeX environments with a hyphen, dot
 or colon came back broken in two

---
 apertium/apertium-postlatex-raw.l | 8 ++++----
 apertium/apertium-postlatex.l     | 8 ++++----
 apertium/apertium-prelatex.l      | 4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index 630f080..c75818e 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -181,25 +181,25 @@ using namespace std;
 	fputs_unlocked("\\#", yyout);
 }
 
-\<[a-zA-Z0-9]+\>	{
+\<[a-zA-Z0-9.:-]+\>	{
 	fputs_unlocked("\\begin{", yyout);
 	fwrite(yytext+1, 1, yyleng-2, yyout);
 	fputs_unlocked("}", yyout);
 }
 
-\<[a-zA-Z0-9]+_STAR\>	{
+\<[a-zA-Z0-9.:-]+_STAR\>	{
 	fputs_unlocked("\\begin{", yyout);
 	fwrite(yytext+1, 1, yyleng-7, yyout);
 	fputs_unlocked("*}", yyout);
 }
 
-\<\/[a-zA-Z0-9]+\>	{
+\<\/[a-zA-Z0-9.:-]+\>	{
 	fputs_unlocked("\\end{", yyout);
 	fwrite(yytext+2, 1, yyleng-3, yyout);
 	fputs_unlocked("}", yyout);
 }
 
-\<\/[a-zA-Z0-9]+_STAR\>	{
+\<\/[a-zA-Z0-9.:-]+_STAR\>	{
 	fputs_unlocked("\\end{", yyout);
 	fwrite(yytext+2, 1, yyleng-8, yyout);
 	fputs_unlocked("*}", yyout);
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 2f9a7c1..24e79f2 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -223,7 +223,7 @@ string symbuf;
 	fputs("{\\ss}",yyout);
 }
 
-\<[a-zA-Z0-9]+\>	{
+\<[a-zA-Z0-9.:-]+\>	{
     fputs("\\begin{", yyout);
     fwrite(yytext+1, 1, yyleng-2, yyout);
     fputc('}', yyout);
@@ -238,19 +238,19 @@ string symbuf;
         fputs("\\#", yyout);
 }
 
-\<[a-zA-Z0-9]+_STAR\>	{
+\<[a-zA-Z0-9.:-]+_STAR\>	{
     fputs("\\begin{", yyout);
     fwrite(yytext+1, 1, yyleng-7, yyout);
     fputs("*}", yyout);
 }
 
-\<\/[a-zA-Z0-9]+\>	{
+\<\/[a-zA-Z0-9.:-]+\>	{
     fputs("\\end{", yyout);
     fwrite(yytext+2, 1, yyleng-3, yyout);
     fputc('}', yyout);
 }
 
-\<\/[a-zA-Z0-9]+_STAR\>	{
+\<\/[a-zA-Z0-9.:-]+_STAR\>	{
     fputs("\\end{", yyout);
     fwrite(yytext+2, 1, yyleng-8, yyout);
     fputs("*}", yyout);
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 31616ff..e040bcf 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -244,14 +244,14 @@ bool ngermanbabel = false;
   fputus(ws, yyout);
 }
 
-<readbrackets>[a-zA-Z0-9]+\*	{
+<readbrackets>[a-zA-Z0-9.:-]+\*	{
   fputc('<', yyout);
   fputus(closesym, yyout);
   fwrite(yytext+0, 1, yyleng-1, yyout);
   fputs("_STAR>", yyout);
 }
 
-<readbrackets>[a-zA-Z0-9]+	{
+<readbrackets>[a-zA-Z0-9.:-]+	{
   fputc('<', yyout);
   fputus(closesym, yyout);
   fputs(yytext, yyout);
-- 
2.43.0


From e330e90c291841b0571262f4cbe41be8eae1564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:26 +0000
Subject: [PATCH 093/111] fix: an escaped dollar sign or two adjacent formulas
 made LaTeX text after them count as mathematics

---
 apertium/apertium-postlatex-raw.l |  4 ++++
 apertium/apertium-postlatex.l     |  4 ++++
 apertium/apertium-prelatex.l      | 15 ++++++++++++---
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index c75818e..10d701c 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -67,6 +67,10 @@ using namespace std;
         fputs_unlocked("\\}", yyout);
 }
 
+\<ESCAPEDDOLLAR\/\>	{
+        fputs_unlocked("\\$", yyout);
+}
+
 \<ESCAPEDPERCENT\/\>	{
         fputs_unlocked("\\%", yyout);
 }
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 24e79f2..b338947 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -78,6 +78,10 @@ string symbuf;
         fputs("\\}", yyout);
 }
 
+\<ESCAPEDDOLLAR\/\>	{
+        fputs("\\$", yyout);
+}
+
 \<ESCAPEDPERCENT\/\>	{
         fputs("\\%", yyout);
 }
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index e040bcf..d8d25f5 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -48,6 +48,7 @@ bool ngermanbabel = false;
 %option stack
 
 %x mathenv
+%x displayenv
 %x readbrackets
 
 %%
@@ -293,6 +294,10 @@ bool ngermanbabel = false;
         fputs("<ESCAPEDPERCENT/>", yyout);
         }
 
+\\\$	{
+        fputs("<ESCAPEDDOLLAR/>", yyout);
+        }
+
 \{	{
 	fputs("<CONTENTS>",yyout);
 }
@@ -306,11 +311,11 @@ bool ngermanbabel = false;
 }
 
 \$\$	{
-	BEGIN(mathenv);
+	BEGIN(displayenv);
 	fputs("<MATH_DOLLARS>",yyout);
 }
 
-<mathenv>\$\$	{
+<displayenv>\$\$	{
 	fputs("</MATH_DOLLARS>",yyout);
 	BEGIN(0);
 }
@@ -412,7 +417,11 @@ bool ngermanbabel = false;
 	fputs(yytext, yyout);
 }
 
-<mathenv>(.|\n)	{
+<mathenv,displayenv>\\(.|\n)	{
+  fputs(yytext, yyout);
+}
+
+<mathenv,displayenv>(.|\n)	{
   fputs(yytext, yyout);
 }
 
-- 
2.43.0


From fa7931be6422dec3c725caf3e21fdbafa5914fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:26 +0000
Subject: [PATCH 094/111] fix: apertium-prelatex did not know the escaped
 closing brace

---
 apertium/apertium-prelatex.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index d8d25f5..d0c38dd 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -286,7 +286,7 @@ bool ngermanbabel = false;
         fputs("<LEFTESCAPEDBRACE/>", yyout);
         }
 
-\\\{	{
+\\\}	{
         fputs("<RIGHTESCAPEDBRACE/>", yyout);
         }
 
-- 
2.43.0


From 1880cd4bf7bfd761536bac2e40aa810557379bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:25 +0000
Subject: [PATCH 095/111] fix: names of LaTeX environments with an underscore
 came back broken in two

---
 apertium/apertium-postlatex-raw.l | 22 +++++++++++-----------
 apertium/apertium-postlatex.l     | 22 +++++++++++-----------
 apertium/apertium-prelatex.l      |  4 ++--
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index 10d701c..3265fc6 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -185,30 +185,30 @@ using namespace std;
 	fputs_unlocked("\\#", yyout);
 }
 
-\<[a-zA-Z0-9.:-]+\>	{
-	fputs_unlocked("\\begin{", yyout);
-	fwrite(yytext+1, 1, yyleng-2, yyout);
-	fputs_unlocked("}", yyout);
-}
-
-\<[a-zA-Z0-9.:-]+_STAR\>	{
+\<[a-zA-Z0-9_.:-]+_STAR\>	{
 	fputs_unlocked("\\begin{", yyout);
 	fwrite(yytext+1, 1, yyleng-7, yyout);
 	fputs_unlocked("*}", yyout);
 }
 
-\<\/[a-zA-Z0-9.:-]+\>	{
-	fputs_unlocked("\\end{", yyout);
-	fwrite(yytext+2, 1, yyleng-3, yyout);
+\<[a-zA-Z0-9_.:-]+\>	{
+	fputs_unlocked("\\begin{", yyout);
+	fwrite(yytext+1, 1, yyleng-2, yyout);
 	fputs_unlocked("}", yyout);
 }
 
-\<\/[a-zA-Z0-9.:-]+_STAR\>	{
+\<\/[a-zA-Z0-9_.:-]+_STAR\>	{
 	fputs_unlocked("\\end{", yyout);
 	fwrite(yytext+2, 1, yyleng-8, yyout);
 	fputs_unlocked("*}", yyout);
 }
 
+\<\/[a-zA-Z0-9_.:-]+\>	{
+	fputs_unlocked("\\end{", yyout);
+	fwrite(yytext+2, 1, yyleng-3, yyout);
+	fputs_unlocked("}", yyout);
+}
+
 \<ACCENT_[^>\n]+\/\>	{
     fputc_unlocked('\\', yyout);
     fwrite(yytext+8, 1, yyleng-10, yyout);
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index b338947..06c8115 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -227,7 +227,13 @@ string symbuf;
 	fputs("{\\ss}",yyout);
 }
 
-\<[a-zA-Z0-9.:-]+\>	{
+\<[a-zA-Z0-9_.:-]+_STAR\>	{
+    fputs("\\begin{", yyout);
+    fwrite(yytext+1, 1, yyleng-7, yyout);
+    fputs("*}", yyout);
+}
+
+\<[a-zA-Z0-9_.:-]+\>	{
     fputs("\\begin{", yyout);
     fwrite(yytext+1, 1, yyleng-2, yyout);
     fputc('}', yyout);
@@ -242,24 +248,18 @@ string symbuf;
         fputs("\\#", yyout);
 }
 
-\<[a-zA-Z0-9.:-]+_STAR\>	{
-    fputs("\\begin{", yyout);
-    fwrite(yytext+1, 1, yyleng-7, yyout);
+\<\/[a-zA-Z0-9_.:-]+_STAR\>	{
+    fputs("\\end{", yyout);
+    fwrite(yytext+2, 1, yyleng-8, yyout);
     fputs("*}", yyout);
 }
 
-\<\/[a-zA-Z0-9.:-]+\>	{
+\<\/[a-zA-Z0-9_.:-]+\>	{
     fputs("\\end{", yyout);
     fwrite(yytext+2, 1, yyleng-3, yyout);
     fputc('}', yyout);
 }
 
-\<\/[a-zA-Z0-9.:-]+_STAR\>	{
-    fputs("\\end{", yyout);
-    fwrite(yytext+2, 1, yyleng-8, yyout);
-    fputs("*}", yyout);
-}
-
 \<ACCENT_[^>\n]+\/\>	{
     fputc('\\', yyout);
     fwrite(yytext+8, 1, yyleng-10, yyout);
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index d0c38dd..513740c 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -245,14 +245,14 @@ bool ngermanbabel = false;
   fputus(ws, yyout);
 }
 
-<readbrackets>[a-zA-Z0-9.:-]+\*	{
+<readbrackets>[a-zA-Z0-9_.:-]+\*	{
   fputc('<', yyout);
   fputus(closesym, yyout);
   fwrite(yytext+0, 1, yyleng-1, yyout);
   fputs("_STAR>", yyout);
 }
 
-<readbrackets>[a-zA-Z0-9.:-]+	{
+<readbrackets>[a-zA-Z0-9_.:-]+	{
   fputc('<', yyout);
   fputus(closesym, yyout);
   fputs(yytext, yyout);
-- 
2.43.0


From a57f77b327eda43277efc1494bf91ae55b2c1166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:50 +0000
Subject: [PATCH 096/111] fix: apertium-utils-fixlatex lost a closing brace at
 the very end of a document

---
 apertium/utils-fixlatex-header.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/utils-fixlatex-header.sh b/apertium/utils-fixlatex-header.sh
index f18409d..b723c99 100644
--- a/apertium/utils-fixlatex-header.sh
+++ b/apertium/utils-fixlatex-header.sh
@@ -26,6 +26,7 @@ BEGIN{
 }
 {
   MYRECORD[++nline] = $0;
+  LASTRT = RT;
 }
 END{
   for(i=1; i < nline; i++)
@@ -47,6 +48,6 @@ END{
     }
   }
 
-  printf("%s", MYRECORD[nline]);
+  printf("%s%s", MYRECORD[nline], LASTRT);
 }' > $OUTPUT_FILE
 
-- 
2.43.0


From 6125ddb7cfc7ffd3ccc315276b76eb1549fdb821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:50 +0000
Subject: [PATCH 097/111] fix: formulas in \(...\) and \[...\] of LaTeX
 documents were translated

The rules for the titles of sections with and without optional argument
are joined because flex allows no more states.
---
 apertium/latex-format.xml | 64 ++++++++++++---------------------------
 1 file changed, 19 insertions(+), 45 deletions(-)

diff --git a/apertium/latex-format.xml b/apertium/latex-format.xml
index 135e2d0..a05c0aa 100644
--- a/apertium/latex-format.xml
+++ b/apertium/latex-format.xml
@@ -38,35 +38,19 @@
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;part"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
+      <tag regexp='"&lt;part"(_STAR)?"/&gt;"[ \t\n\r]*("&lt;CONTENTS&gt;"|"&lt;PARAM&gt;")'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;part"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
+      <tag regexp='"&lt;chapter"(_STAR)?"/&gt;"[ \t\n\r]*("&lt;CONTENTS&gt;"|"&lt;PARAM&gt;")'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;chapter"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
+      <tag regexp='"&lt;section"(_STAR)?"/&gt;"[ \t\n\r]*("&lt;CONTENTS&gt;"|"&lt;PARAM&gt;")'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;chapter"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;section"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;section"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;title"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;title"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
+      <tag regexp='"&lt;title"(_STAR)?"/&gt;"[ \t\n\r]*("&lt;CONTENTS&gt;"|"&lt;PARAM&gt;")'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
@@ -90,43 +74,23 @@
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
+      <tag regexp='"&lt;subsubsection"(_STAR)?"/&gt;"[ \t\n\r]*("&lt;CONTENTS&gt;"|"&lt;PARAM&gt;")'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
+      <tag regexp='"&lt;subsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*("&lt;CONTENTS&gt;"|"&lt;PARAM&gt;")'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
+      <tag regexp='"&lt;subsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*("&lt;CONTENTS&gt;"|"&lt;PARAM&gt;")'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
+      <tag regexp='"&lt;subsubsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*("&lt;CONTENTS&gt;"|"&lt;PARAM&gt;")'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;frametitle"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;frametitle"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
+      <tag regexp='"&lt;frametitle"(_STAR)?"/&gt;"[ \t\n\r]*("&lt;CONTENTS&gt;"|"&lt;PARAM&gt;")'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
@@ -214,6 +178,16 @@
       <end regexp='"&lt;/MATH_DOLLARS&gt;"'/>
     </format-rule>
 
+    <format-rule type="comment" eos="no" priority="4">
+      <begin regexp='"&lt;MATH_PAR&gt;"'/>
+      <end regexp='"&lt;/MATH_PAR&gt;"'/>
+    </format-rule>
+
+    <format-rule type="comment" eos="yes" priority="4">
+      <begin regexp='"&lt;MATH_BRA&gt;"'/>
+      <end regexp='"&lt;/MATH_BRA&gt;"'/>
+    </format-rule>
+
     <format-rule type="comment" eos="yes" priority="4">
       <begin regexp='"&lt;equation"(_STAR)?"&gt;"'/>
       <end regexp='"&lt;/equation"(_STAR)?"&gt;"'/>
-- 
2.43.0


From f2b2a289b3324a07eca63ab007704d67e32ce92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:22 +0000
Subject: [PATCH 098/111] fix: transfer crashed when a macro without arguments
 printed a word in a one-word rule

---
 apertium/transfer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index f42fa14..13bf5d5 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -312,9 +312,10 @@ Transfer::processLu(xmlNode* element)
 
   in_lu = false;
 
-  // if word == nullptr then we're outputting a word
-  // inside an npar=0 macro and there's not much we can do
-  if(last_lword == 1 && word != nullptr) {
+  // if word == nullptr then we're outputting a word inside an npar=0
+  // macro and if word[0] == nullptr inside one called without its
+  // argument, and there's not much we can do
+  if(last_lword == 1 && word != nullptr && word[0] != nullptr) {
     out_wblank = word[0]->getWblank();
   }
 
@@ -364,7 +365,7 @@ Transfer::processMlu(xmlNode* element)
 
   in_lu = false;
 
-  if(last_lword == 1) {
+  if(last_lword == 1 && word != nullptr && word[0] != nullptr) {
     out_wblank = word[0]->getWblank();
   }
 
-- 
2.43.0


From 16ede62168e610259c19d97e2b995fc3c13bab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:22 +0000
Subject: [PATCH 099/111] fix: postchunk crashed when a macro called without
 its argument printed a word

---
 apertium/postchunk.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 0105d83..042a962 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -168,7 +168,8 @@ Postchunk::processLu(xmlNode* element)
   }
   in_lu = false;
 
-  if (lword == 1) {
+  // there is no word[1] inside a macro called without its argument
+  if (lword == 1 && word[1] != nullptr) {
     out_wblank = word[1]->getWblank();
   }
 
@@ -210,7 +211,8 @@ Postchunk::processMlu(xmlNode* element)
 
   in_lu = false;
 
-  if (lword == 1) {
+  // there is no word[1] inside a macro called without its argument
+  if (lword == 1 && word[1] != nullptr) {
     out_wblank = word[1]->getWblank();
   }
 
-- 
2.43.0


From b52d768a7b6a5979c82ba242d6461418118eedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:23 +0000
Subject: [PATCH 100/111] fix: postchunk aborted when a macro without
 parameters was called

---
 apertium/postchunk.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 042a962..134724a 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -427,17 +427,13 @@ Postchunk::processCallMacro(xmlNode *localroot)
     }
   }
 
-  if (npar <= 0)
+  if (npar < 0)
   {
-    throw "Postchunk::processCallMacro() assumes npar > 0, but got npar <= 0";
+    throw "Postchunk::processCallMacro() assumes npar >= 0, but got npar < 0";
   }
 
-  InterchunkWord **myword = NULL;
-  if(npar > 0)
-  {
-    myword = new InterchunkWord *[npar+1];
-    std::fill(myword, myword+npar+1, (InterchunkWord *)(0));
-  }
+  InterchunkWord **myword = new InterchunkWord *[npar+1];
+  std::fill(myword, myword+npar+1, (InterchunkWord *)(0));
 
   myword[0] = word[0];
 
-- 
2.43.0


From 1ab19465955100b4f2414a97e70d833416e2b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:26 +0000
Subject: [PATCH 101/111] fix: documents in docx format came back untranslated
 when the path of TMPDIR has 'rels' or 'settings' in it

---
 apertium/apertium-header.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 0aa4058..3bd65aa 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -296,8 +296,10 @@ translate_docx () {
     rm "$LOCALTEMP";
   done;
 
-  find "$INPUT_TMPDIR" -name "*.xml" |\
+  # (the path of $INPUT_TMPDIR itself does not take part in the selection)
+  (cd "$INPUT_TMPDIR" && find . -name "*.xml") |\
   grep -E -v -i '(settings|theme|styles|font|rels|docProps|Content_Types|customXml)' |\
+  while IFS= read -r i; do echo "$INPUT_TMPDIR/$i"; done |\
   apertium-adapt-docx -n |\
   apertium-deswxml "${FORMAT_OPTIONS[@]}" |\
   if [[ -z "$TRANSLATION_MEMORY_FILE" ]];
-- 
2.43.0


From 395e4b7f6e30ffe06163429208fe3ea95c52de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:30 +0000
Subject: [PATCH 102/111] fix: apertium-unformat >> FILE lost what FILE already
 held

---
 apertium/apertium-unformat-header.sh | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/apertium/apertium-unformat-header.sh b/apertium/apertium-unformat-header.sh
index d9408b8..f09baae 100644
--- a/apertium/apertium-unformat-header.sh
+++ b/apertium/apertium-unformat-header.sh
@@ -59,7 +59,7 @@ unformat_latex()
 
   apertium-prelatex "$FICHERO" | \
   apertium-utils-fixlatex | \
-  apertium-deslatex  >"$SALIDA"
+  apertium-deslatex
 
   if [ "$BORRAFICHERO" = "true" ]
   then rm -Rf "$FICHERO"
@@ -77,7 +77,7 @@ unformat_odt ()
   unzip -q -o -d "$INPUT_TMPDIR" "$FICHERO"
   find "$INPUT_TMPDIR" | grep content\\\.xml |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
-  apertium-desodt >"$SALIDA"
+  apertium-desodt
   rm -Rf "$INPUT_TMPDIR"
 }
 
@@ -100,7 +100,7 @@ unformat_docx ()
   find "$INPUT_TMPDIR" | grep "xml" |\
   grep -v -i \\\(settings\\\|theme\\\|styles\\\|font\\\|rels\\\|docProps\\\) |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
-  apertium-deswxml >"$SALIDA"
+  apertium-deswxml
   rm -Rf "$INPUT_TMPDIR"
 }
 
@@ -122,7 +122,7 @@ unformat_pptx ()
 
   find . -path '**/slides/slide*.xml' |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
-  apertium-despptx >"$SALIDA"
+  apertium-despptx
   rm -Rf "$INPUT_TMPDIR"
 }
 
@@ -137,7 +137,7 @@ unformat_xlsx ()
   unzip -q -o -d "$INPUT_TMPDIR" "$FICHERO"
   find "$INPUT_TMPDIR" | grep "sharedStrings.xml" |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
-  apertium-desxlsx >"$SALIDA"
+  apertium-desxlsx
   rm -Rf "$INPUT_TMPDIR"
 
 }
@@ -180,7 +180,9 @@ if [ -z "$FORMAT" ]; then FORMAT="txt"; fi
 
 FORMATADOR=$FORMAT;
 FICHERO=$INPUT_FILE;
-SALIDA=$OUTPUT_FILE;
+
+# what standard output already holds is kept
+if [ "$OUTPUT_FILE" != "/dev/stdout" ]; then exec >"$OUTPUT_FILE"; fi
 
 
 case "$FORMATADOR" in
@@ -226,4 +228,4 @@ case "$FORMATADOR" in
 
 esac
 
-apertium-des"$FORMATADOR" "$FICHERO" >"$SALIDA"
+apertium-des"$FORMATADOR" "$FICHERO"
-- 
2.43.0


From 042ce6993dc6b96492e9fdef0b5ee5c9c295083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:30 +0000
Subject: [PATCH 103/111] fix: apertium-unformat -f rtf refused to work without
 a locale that is not UTF-8

---
 apertium/apertium-unformat-header.sh | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/apertium/apertium-unformat-header.sh b/apertium/apertium-unformat-header.sh
index f09baae..e7373db 100644
--- a/apertium/apertium-unformat-header.sh
+++ b/apertium/apertium-unformat-header.sh
@@ -186,14 +186,6 @@ if [ "$OUTPUT_FILE" != "/dev/stdout" ]; then exec >"$OUTPUT_FILE"; fi
 
 
 case "$FORMATADOR" in
-        rtf)
-                MILOCALE=$(locale -a | grep -E -i -v -m1 'utf|^C|^POSIX$')
-		if [ "$MILOCALE" = "" ]
-		then echo "Error: Install a ISO-8859-1 compatible locale in your system";
-	             exit 1;
-	        fi
-	        export LC_CTYPE=$MILOCALE
-		;;
         html-noent)
         	FORMATADOR="html"
         	;;
-- 
2.43.0


From 6901a600914ebf8eab0a756c7809737ca5aaa627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:30 +0000
Subject: [PATCH 104/111] fix: apertium-unformat -f pptx looked for slides in
 the current directory instead of in the document

---
 apertium/apertium-unformat-header.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/apertium-unformat-header.sh b/apertium/apertium-unformat-header.sh
index e7373db..233ebb4 100644
--- a/apertium/apertium-unformat-header.sh
+++ b/apertium/apertium-unformat-header.sh
@@ -120,7 +120,7 @@ unformat_pptx ()
      rm "$LOCALTEMP"
   done;
 
-  find . -path '**/slides/slide*.xml' |\
+  find "$INPUT_TMPDIR" -path '**/slides/slide*.xml' |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-despptx
   rm -Rf "$INPUT_TMPDIR"
-- 
2.43.0


From ba70a18ad655f4928131dde73ab13941ee259b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:30 +0000
Subject: [PATCH 105/111] fix: apertium-unformat -f odt, docx, pptx or xlsx
 could not read a document from standard input

---
 apertium/apertium-unformat-header.sh | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/apertium/apertium-unformat-header.sh b/apertium/apertium-unformat-header.sh
index 233ebb4..2cdfadb 100644
--- a/apertium/apertium-unformat-header.sh
+++ b/apertium/apertium-unformat-header.sh
@@ -47,6 +47,18 @@ test_gawk ()
   fi
 }
 
+# unpacks the document (from standard input: by way of a copy) into $INPUT_TMPDIR
+unpack ()
+{
+  if [ "$FICHERO" = "/dev/stdin" ]
+  then FICHERO=$(mktemp "$TMPDIR"/apertium.XXXXXXXX)
+       cat > "$FICHERO"
+       unzip -q -o -d "$INPUT_TMPDIR" "$FICHERO"
+       rm -f "$FICHERO"
+  else unzip -q -o -d "$INPUT_TMPDIR" "$FICHERO"
+  fi
+}
+
 unformat_latex()
 {
   test_gawk
@@ -74,7 +86,7 @@ unformat_odt ()
   locale_utf8
   test_zip
 
-  unzip -q -o -d "$INPUT_TMPDIR" "$FICHERO"
+  unpack
   find "$INPUT_TMPDIR" | grep content\\\.xml |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-desodt
@@ -88,7 +100,7 @@ unformat_docx ()
   locale_utf8
   test_zip
 
-  unzip -q -o -d "$INPUT_TMPDIR" "$FICHERO"
+  unpack
 
   for i in $(find "$INPUT_TMPDIR"|grep "xlsx$");
   do LOCALTEMP=$(mktemp "$TMPDIR"/apertium.XXXXXXXX)
@@ -111,7 +123,7 @@ unformat_pptx ()
   locale_utf8
   test_zip
 
-  unzip -q -o -d "$INPUT_TMPDIR" "$FICHERO"
+  unpack
 
   for i in $(find "$INPUT_TMPDIR"|grep "xlsx$");
   do LOCALTEMP=$(mktemp "$TMPDIR"/apertium.XXXXXXXX)
@@ -134,7 +146,7 @@ unformat_xlsx ()
   locale_utf8
   test_zip
 
-  unzip -q -o -d "$INPUT_TMPDIR" "$FICHERO"
+  unpack
   find "$INPUT_TMPDIR" | grep "sharedStrings.xml" |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-desxlsx
-- 
2.43.0


From dda4347b3e3c7ee6e912f1e341b954664aa04237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:30 +0000
Subject: [PATCH 106/111] fix: apertium-unformat succeeded on a document that
 could not be unpacked

---
 apertium/apertium-unformat-header.sh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apertium/apertium-unformat-header.sh b/apertium/apertium-unformat-header.sh
index 2cdfadb..183b295 100644
--- a/apertium/apertium-unformat-header.sh
+++ b/apertium/apertium-unformat-header.sh
@@ -54,8 +54,16 @@ unpack ()
   then FICHERO=$(mktemp "$TMPDIR"/apertium.XXXXXXXX)
        cat > "$FICHERO"
        unzip -q -o -d "$INPUT_TMPDIR" "$FICHERO"
+       UNZIPPED=$?
        rm -f "$FICHERO"
   else unzip -q -o -d "$INPUT_TMPDIR" "$FICHERO"
+       UNZIPPED=$?
+  fi
+
+  # 1 is but a warning
+  if [ "$UNZIPPED" -gt 1 ]
+  then rm -Rf "$INPUT_TMPDIR"
+       exit 1
   fi
 }
 
-- 
2.43.0


From ac04b83e20f59cd3d309dbf3448ded6b8ae381dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:30 +0000
Subject: [PATCH 107/111] fix: apertium-unformat took the path of TMPDIR,
 folders and pictures for parts of the document with text

---
 apertium/apertium-unformat-header.sh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apertium/apertium-unformat-header.sh b/apertium/apertium-unformat-header.sh
index 183b295..caa596f 100644
--- a/apertium/apertium-unformat-header.sh
+++ b/apertium/apertium-unformat-header.sh
@@ -95,7 +95,7 @@ unformat_odt ()
   test_zip
 
   unpack
-  find "$INPUT_TMPDIR" | grep content\\\.xml |\
+  find "$INPUT_TMPDIR" -name content.xml |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-desodt
   rm -Rf "$INPUT_TMPDIR"
@@ -117,8 +117,10 @@ unformat_docx ()
      rm "$LOCALTEMP";
   done;
 
-  find "$INPUT_TMPDIR" | grep "xml" |\
+  # (the path of $INPUT_TMPDIR itself does not take part in the selection)
+  (cd "$INPUT_TMPDIR" && find . -name "*.xml") |\
   grep -v -i \\\(settings\\\|theme\\\|styles\\\|font\\\|rels\\\|docProps\\\) |\
+  while IFS= read -r i; do echo "$INPUT_TMPDIR/$i"; done |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-deswxml
   rm -Rf "$INPUT_TMPDIR"
@@ -155,7 +157,7 @@ unformat_xlsx ()
   test_zip
 
   unpack
-  find "$INPUT_TMPDIR" | grep "sharedStrings.xml" |\
+  find "$INPUT_TMPDIR" -name "sharedStrings.xml" |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-desxlsx
   rm -Rf "$INPUT_TMPDIR"
-- 
2.43.0


From 9187e2a9581dec1b2425aa93c093705b056395f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:56 +0000
Subject: [PATCH 108/111] fix: apertium-unformat -f latex deleted the document
 when the environment had BORRAFICHERO=true

---
 apertium/apertium-unformat-header.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apertium/apertium-unformat-header.sh b/apertium/apertium-unformat-header.sh
index caa596f..9e06dcb 100644
--- a/apertium/apertium-unformat-header.sh
+++ b/apertium/apertium-unformat-header.sh
@@ -3,6 +3,8 @@
 PATH="${APERTIUM_PATH}:${PATH}"
 INPUT_FILE="/dev/stdin"
 OUTPUT_FILE="/dev/stdout"
+FORMAT=""
+BORRAFICHERO=""
 
 [ -z "$TMPDIR" ] && TMPDIR=/tmp
 
-- 
2.43.0


From c7ee5058caeac62780f362b5f9ab0c652dceba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:56 +0000
Subject: [PATCH 109/111] fix: variables of the environment (BORRAFICHERO,
 UWORDS, REDIR and others) changed what apertium did

---
 apertium/apertium-header.sh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 3bd65aa..332203b 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -493,6 +493,11 @@ PAIR=""
 INFILE="/dev/stdin"
 FORMAT="txt"
 DATADIR=$APERTIUM_DATADIR
+REDIR=""
+UWORDS=""
+OPTION_TAGGER=""
+BORRAFICHERO=""
+TRANSLATION_MEMORY_FILE=""
 TRANSLATION_MEMORY_DIRECTION=""
 LIST_MODES_AND_EXIT=false
 TMXPROC_OPTIONS=()
-- 
2.43.0


From 80734ca195a6d30d8a32542a55aa68f8e4dc0a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:27 +0000
Subject: [PATCH 110/111] fix: apertium-unformat -f docx or pptx called the
 translator on embedded worksheets and wrote files into the current directory

---
 apertium/apertium-unformat-header.sh | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/apertium/apertium-unformat-header.sh b/apertium/apertium-unformat-header.sh
index 9e06dcb..c5c6e45 100644
--- a/apertium/apertium-unformat-header.sh
+++ b/apertium/apertium-unformat-header.sh
@@ -112,13 +112,6 @@ unformat_docx ()
 
   unpack
 
-  for i in $(find "$INPUT_TMPDIR"|grep "xlsx$");
-  do LOCALTEMP=$(mktemp "$TMPDIR"/apertium.XXXXXXXX)
-     apertium -f xlsx -d "$DIRECTORY" "$OPCIONU" "$PREFIJO" <"$i" >"$LOCALTEMP";
-     cp "$LOCALTEMP" "$i";
-     rm "$LOCALTEMP";
-  done;
-
   # (the path of $INPUT_TMPDIR itself does not take part in the selection)
   (cd "$INPUT_TMPDIR" && find . -name "*.xml") |\
   grep -v -i \\\(settings\\\|theme\\\|styles\\\|font\\\|rels\\\|docProps\\\) |\
@@ -137,13 +130,6 @@ unformat_pptx ()
 
   unpack
 
-  for i in $(find "$INPUT_TMPDIR"|grep "xlsx$");
-  do LOCALTEMP=$(mktemp "$TMPDIR"/apertium.XXXXXXXX)
-     apertium -f xlsx -d "$DIRECTORY" "$OPCIONU" "$PREFIJO" <"$i" >"$LOCALTEMP"
-     cp "$LOCALTEMP" "$i"
-     rm "$LOCALTEMP"
-  done;
-
   find "$INPUT_TMPDIR" -path '**/slides/slide*.xml' |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-despptx
-- 
2.43.0


From 848744078a1bd72eae24d87340f238a3f2d0ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:52 +0000
Subject: [PATCH 111/111] fix: apertium succeeded, with an empty document, when
 an odt, docx, pptx or xlsx document could not be unpacked

---
 apertium/apertium-header.sh | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 332203b..f05a451 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -176,6 +176,19 @@ test_zip () {
   fi
 }
 
+unzip_input () {
+  local unzip_status=0
+  unzip -q -o -d "$INPUT_TMPDIR" "$INFILE" || unzip_status=$?
+  # 1 is but a warning
+  if [[ $unzip_status -gt 1 ]]; then
+    rm -Rf "$INPUT_TMPDIR" "$TMP_OUT_FILE"
+    if [[ "$BORRAFICHERO" = "true" ]]; then
+      rm -Rf "$INFILE";
+    fi
+    exit 1
+  fi
+}
+
 test_gawk () {
   if ! command -v gawk &>/dev/null; then
     echo "Error: Install 'gawk' in your system"
@@ -238,7 +251,7 @@ translate_odt () {
   fi
   TMP_OUT_FILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
 
-  unzip -q -o -d "$INPUT_TMPDIR" "$INFILE"
+  unzip_input
   find "$INPUT_TMPDIR" -name content.xml -o -name styles.xml |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-desodt "${FORMAT_OPTIONS[@]}" |\
@@ -287,7 +300,7 @@ translate_docx () {
   else OPCIONU="";
   fi
 
-  unzip -q -o -d "$INPUT_TMPDIR" "$INFILE"
+  unzip_input
 
   find "$INPUT_TMPDIR" -name "*.xlsx" -print0 | while read -r -d '' i; do
     LOCALTEMP=$(mktemp "$TMPDIR/apertium.XXXXXXXX");
@@ -346,7 +359,7 @@ translate_pptx () {
   else OPCIONU="";
   fi
 
-  unzip -q -o -d "$INPUT_TMPDIR" "$INFILE"
+  unzip_input
 
   find "$INPUT_TMPDIR" -name "*.xlsx" -print0 | while read -r -d '' i; do
     LOCALTEMP=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
@@ -392,7 +405,7 @@ translate_xlsx () {
   fi
   TMP_OUT_FILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
 
-  unzip -q -o -d "$INPUT_TMPDIR" "$INFILE"
+  unzip_input
   find "$INPUT_TMPDIR" -name "sharedStrings.xml" |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-desxlsx "${FORMAT_OPTIONS[@]}" |\
-- 
2.43.0

