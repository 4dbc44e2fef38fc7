From 3b89795a1fc2c6b4ea6938498b85e5e78ce514e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 01/62] Add a guarded hook that reports the document after each
 pipeline step

---
 src/PdfToTextPlusPlus.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/PdfToTextPlusPlus.cpp b/src/PdfToTextPlusPlus.cpp
index 8e09d15..df84a47 100755
--- a/src/PdfToTextPlusPlus.cpp
+++ b/src/PdfToTextPlusPlus.cpp
@@ -58,6 +58,15 @@ using ppp::types::Timing;
 
 // =================================================================================================
 
+// A hook for runtime monitors: when compiled with -DPPP_VERIF_HOOKS, the state of the document is
+// reported to the (externally defined) function pppVerifOnStage() after each step of the pipeline.
+#ifdef PPP_VERIF_HOOKS
+void pppVerifOnStage(const char* stage, const ppp::types::PdfDocument* doc);
+#define PPP_VERIF_STAGE(stage) pppVerifOnStage(stage, doc)
+#else
+#define PPP_VERIF_STAGE(stage)
+#endif
+
 namespace ppp {
 
 // _________________________________________________________________________________________________
@@ -108,6 +117,8 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
     timings->push_back(Timing("Parse PDF", duration));
   }
 
+  PPP_VERIF_STAGE("parsing");
+
   // (3) Calculate glyphs statistics, for example: the most frequent font size.
   if (_config->glyphsStatisticsCalculation.disabled == false) {
     start = high_resolution_clock::now();
@@ -120,6 +131,8 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
     }
   }
 
+  PPP_VERIF_STAGE("glyph-stats");
+
   // (4) Merge the combining diacritical marks with their base characters.
   if (_config->diacriticalMarksMerging.disabled == false) {
     start = high_resolution_clock::now();
@@ -132,6 +145,8 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
     }
   }
 
+  PPP_VERIF_STAGE("diacritics");
+
   // (5) Detect the words.
   if (_config->wordsDetection.disabled == false) {
     start = high_resolution_clock::now();
@@ -144,6 +159,8 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
     }
   }
 
+  PPP_VERIF_STAGE("words");
+
   // (6) Compute some statistics about the words, for example: the most frequent word height.
   if (_config->wordsStatisticsCalculation.disabled == false) {
     start = high_resolution_clock::now();
@@ -156,6 +173,8 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
     }
   }
 
+  PPP_VERIF_STAGE("word-stats");
+
   // (7) Segment the pages of the document (for identifying columns).
   if (_config->pageSegmentation.disabled == false) {
     start = high_resolution_clock::now();
@@ -168,6 +187,8 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
     }
   }
 
+  PPP_VERIF_STAGE("segmentation");
+
   // (8) Detect the text lines.
   if (_config->textLinesDetection.disabled == false) {
     start = high_resolution_clock::now();
@@ -190,6 +211,8 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
     }
   }
 
+  PPP_VERIF_STAGE("lines");
+
   // (9) Detect subscripted and superscripted characters.
   if (_config->subSuperScriptsDetection.disabled == false) {
     start = high_resolution_clock::now();
@@ -202,6 +225,8 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
     }
   }
 
+  PPP_VERIF_STAGE("scripts");
+
   // (10) Compute some statistics about the text lines, for example: the most frequent indentation.
   if (_config->textLinesStatisticsCalculation.disabled == false) {
     start = high_resolution_clock::now();
@@ -214,6 +239,8 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
     }
   }
 
+  PPP_VERIF_STAGE("line-stats");
+
   // (11) Detect the text blocks.
   if (_config->textBlocksDetection.disabled == false) {
     start = high_resolution_clock::now();
@@ -226,6 +253,8 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
     }
   }
 
+  PPP_VERIF_STAGE("blocks");
+
   // (12) Detect the reading order of the text blocks.
   if (_config->readingOrderDetection.disabled == false) {
     start = high_resolution_clock::now();
@@ -241,6 +270,8 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
     }
   }
 
+  PPP_VERIF_STAGE("reading-order");
+
   // (13) Dehyphenate words, if not deactivated by the user.
   if (_config->wordsDehyphenation.disabled == false) {
     start = high_resolution_clock::now();
@@ -263,6 +294,8 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
     }
   }
 
+  PPP_VERIF_STAGE("final");
+
   return 0;
 }
 
-- 
2.43.0


From 4d74e6f9a428083c4c5bcd706d80a2391cfecb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 02/62] fix: avoid signed integer overflow on decrypting Type 1
 font programs

---
 src/utils/PdfFontInfoParser.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 46cbeac..0636a59 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -850,18 +850,21 @@ void Type1FontFileParser::parseCharString(const string& charString,
 // _________________________________________________________________________________________________
 void Type1FontFileParser::decrypt(const char* bytes, int numBytes, int r, int n,
     string* resultStr) const {
-  int c1 = 52845;
-  int c2 = 22719;
+  // NOTE: The computation is modulo 2^16. It must be done unsigned, since the intermediate results
+  // do not fit into a (signed) int.
+  unsigned int c1 = 52845;
+  unsigned int c2 = 22719;
+  unsigned int key = r;
 
   for (int i = 0; i < numBytes; i++) {
-    int cipher = bytes[i] & 0xff;
-    int plain = cipher ^ (r >> 8);
+    unsigned int cipher = bytes[i] & 0xff;
+    unsigned int plain = cipher ^ (key >> 8);
 
     if (i >= n) {
       resultStr->push_back(static_cast<char>(plain) );
     }
 
-    r = ((cipher + r) * c1 + c2) & ((1 << 16) - 1);
+    key = ((cipher + key) * c1 + c2) & 0xffff;
   }
 }
 
-- 
2.43.0


From f93038de61945f152d952b3cf3e873f960bd0dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 03/62] fix: compute gaps between rotated elements from their
 page coordinates

---
 src/utils/PdfElementsUtils.cpp | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/utils/PdfElementsUtils.cpp b/src/utils/PdfElementsUtils.cpp
index 8ae53df..d0a82e0 100755
--- a/src/utils/PdfElementsUtils.cpp
+++ b/src/utils/PdfElementsUtils.cpp
@@ -50,16 +50,7 @@ double computeHorizontalGap(const PdfElement* elem1, const PdfElement* elem2) {
     right = elem1;
   }
 
-  // Compute the horizontal gap between the elements, under consideration of the rotation.
-  switch (left->pos->rotation) {
-    case 0:
-    case 1:
-    default:
-      return right->pos->leftX - left->pos->rightX;
-    case 2:
-    case 3:
-      return left->pos->rightX - right->pos->leftX;
-  }
+  return right->pos->leftX - left->pos->rightX;
 }
 
 // _________________________________________________________________________________________________
@@ -78,16 +69,7 @@ double computeVerticalGap(const PdfElement* elem1, const PdfElement* elem2) {
     lower = elem1;
   }
 
-  // Compute the vertical gap between the elements, under consideration of the rotation.
-  switch (upper->pos->rotation) {
-    case 0:
-    case 1:
-    default:
-      return lower->pos->upperY - upper->pos->lowerY;
-    case 2:
-    case 3:
-      return upper->pos->lowerY - lower->pos->upperY;
-  }
+  return lower->pos->upperY - upper->pos->lowerY;
 }
 
 // _________________________________________________________________________________________________
-- 
2.43.0


From 2c9335f788503a970466a2cbea5aaa37632012eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 04/62] fix: order the coordinates of the bounding boxes of
 upside down and mirrored characters

---
 src/PdfParsing.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index a2d8cd5..9acff93 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -455,11 +455,12 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
     }
   }
 
-  // Round the coordinates of the character's bounding box.
-  ch->pos->leftX = round(posLeftX, _config.coordinatePrecision);
-  ch->pos->upperY = round(posUpperY, _config.coordinatePrecision);
-  ch->pos->rightX = round(posRightX, _config.coordinatePrecision);
-  ch->pos->lowerY = round(posLowerY, _config.coordinatePrecision);
+  // Round the coordinates of the character's bounding box. The end points need to be ordered: for
+  // example, the advance of an upside down or mirrored character points to the left.
+  ch->pos->leftX = round(minimum(posLeftX, posRightX), _config.coordinatePrecision);
+  ch->pos->upperY = round(minimum(posUpperY, posLowerY), _config.coordinatePrecision);
+  ch->pos->rightX = round(maximum(posLeftX, posRightX), _config.coordinatePrecision);
+  ch->pos->lowerY = round(maximum(posUpperY, posLowerY), _config.coordinatePrecision);
   ch->base = round(base, _config.coordinatePrecision);
 
   _log->debug(_p) << " • char.leftX:  " << ch->pos->leftX << endl;
-- 
2.43.0


From 2406b56254f45ed32f7bc9b599a6b276a6c54468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 05/62] fix: detect words in text that is rotated by 90 or 270
 degrees

---
 src/WordsDetection.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index d6e5084..7a14787 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -27,6 +27,7 @@ using ppp::utils::WordsDetectionUtils;
 using ppp::utils::elements::computeHorizontalGap;
 using ppp::utils::elements::computeMaxXOverlapRatio;
 using ppp::utils::elements::computeMaxYOverlapRatio;
+using ppp::utils::elements::computeVerticalGap;
 using ppp::utils::log::BLUE;
 using ppp::utils::log::BOLD;
 using ppp::utils::log::OFF;
@@ -219,7 +220,12 @@ bool WordsDetection::startsWord(const PdfCharacter* currChar) const {
   // The character starts a new word if the maximum y-overlap between the character and the active
   // word is smaller than the given threshold.
 
-  double maxYOverlapRatio = computeMaxYOverlapRatio(currChar, &_activeWord);
+  // If the text runs vertically on the page (because it is rotated by 90 or 270 degrees, or because
+  // it is written in vertical writing mode), the axes are swapped.
+  bool isVertical = (currChar->pos->rotation == 1 || currChar->pos->rotation == 3);
+
+  double maxYOverlapRatio = isVertical ? computeMaxXOverlapRatio(currChar, &_activeWord)
+      : computeMaxYOverlapRatio(currChar, &_activeWord);
 
   _log->debug(p) << BLUE << "Is the maximum y-overlap ratio between the character and the active "
       << "word smaller than a threshold?" << endl;
@@ -234,8 +240,10 @@ bool WordsDetection::startsWord(const PdfCharacter* currChar) const {
   // The character starts a new word if the horizontal gap between the character and the previous
   // character is larger than a threshold.
 
-  double hGapLeft = computeHorizontalGap(currChar, &_activeWord);
-  double hGapRight = computeHorizontalGap(&_activeWord, currChar);
+  double hGapLeft = isVertical ? computeVerticalGap(currChar, &_activeWord)
+      : computeHorizontalGap(currChar, &_activeWord);
+  double hGapRight = isVertical ? computeVerticalGap(&_activeWord, currChar)
+      : computeHorizontalGap(&_activeWord, currChar);
   double hGapThreshold = _config->getHorizontalGapThreshold(_doc, &_activeWord);
 
   _log->debug(p) << BLUE << "Are the horizontal gaps between the character and the active word "
-- 
2.43.0


From 0a7d1ffbabb951b124bfcbbe7fa9a1da0537842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 06/62] fix: detect the text lines of text that is rotated by
 90 or 270 degrees

---
 src/TextLinesDetection.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/TextLinesDetection.cpp b/src/TextLinesDetection.cpp
index 8e56ad5..87be871 100755
--- a/src/TextLinesDetection.cpp
+++ b/src/TextLinesDetection.cpp
@@ -48,7 +48,9 @@ using ppp::utils::comparators::RotLowerYDescComparator;
 using ppp::utils::counter::DoubleCounter;
 using ppp::utils::counter::StringCounter;
 using ppp::utils::elements::computeHorizontalGap;
+using ppp::utils::elements::computeMaxXOverlapRatio;
 using ppp::utils::elements::computeMaxYOverlapRatio;
+using ppp::utils::elements::computeVerticalGap;
 using ppp::utils::log::BOLD;
 using ppp::utils::log::GRAY;
 using ppp::utils::log::OFF;
@@ -201,7 +203,7 @@ void TextLinesDetection::process() {
         _log->debug(p) << qq << BOLD << "Sorting text lines" << OFF << endl;
         _log->debug(p) << "=========================================================" << endl;
 
-        if (rot == 0 || rot == 1) {
+        if (rot == 0 || rot == 3) {
           sort(lines.begin(), lines.end(), RotLowerYAscComparator());
         } else {
           sort(lines.begin(), lines.end(), RotLowerYDescComparator());
@@ -260,8 +262,14 @@ void TextLinesDetection::process() {
             double xGap = 0.0;
             double yOverlapRatio = 0.0;
             if (prevLine) {
-              xGap = computeHorizontalGap(prevLine, currLine);
-              yOverlapRatio = computeMaxYOverlapRatio(prevLine, currLine);
+              // If the lines run vertically on the page, the axes are swapped.
+              if (rot == 1 || rot == 3) {
+                xGap = computeVerticalGap(prevLine, currLine);
+                yOverlapRatio = computeMaxXOverlapRatio(prevLine, currLine);
+              } else {
+                xGap = computeHorizontalGap(prevLine, currLine);
+                yOverlapRatio = computeMaxYOverlapRatio(prevLine, currLine);
+              }
             }
 
             // Define a threshold for the vertical overlap ratio between the current line and the
-- 
2.43.0


From 2bfdf0df48f4ed050fe3d9c50078c5f5e4bc41e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 07/62] fix: do not lose or duplicate words between two
 overlapping stacked math symbols

---
 src/WordsDetection.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index 7a14787..f1a550a 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -292,6 +292,12 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
       _log->debug(p) << " • word.rotLowerY: " << word->pos->getRotLowerY() << endl;
     }
 
+    // Skip the word if it is already part of another stacked math symbol.
+    if (word->isPartOfStackedMathSymbol) {
+      _log->debug(p) << BOLD << "Skipping word (part of stacked math symbol)." << OFF << endl;
+      continue;
+    }
+
     // Check if the word is the base word of a stacked math symbol.
     bool isBaseOfStackedMathSymbol = false;
     for (auto* ch : word->characters) {
@@ -332,6 +338,14 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
       _log->debug(p) << " • prevWord.lowerY: " << prevWord->pos->lowerY << endl;
       _log->debug(p) << " • prevWord.fontSize: " << prevWord->fontSize << endl;
 
+      // The previous word is not a part of the stacked math symbol when it already belongs to another
+      // stacked math symbol.
+      if (prevWord->isPartOfStackedMathSymbol || !prevWord->isBaseOfStackedMathSymbol.empty()) {
+        _log->debug(p) << BOLD << "is *not* part of the stacked math symbol "
+            << "(belongs to another one)." << OFF << endl;
+        break;
+      }
+
       // The previous word is not a part of the stacked math symbol when the maximum x-overlap
       // ratio is smaller than a threshold.
       double maxXOverlapRatio = computeMaxXOverlapRatio(word, prevWord);
@@ -374,6 +388,14 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
       _log->debug(p) << " • nextWord.lowerY: " << nextWord->pos->lowerY << endl;
       _log->debug(p) << " • nextWord.fontSize: " << nextWord->fontSize << endl;
 
+      // The next word is not a part of the stacked math symbol when it already belongs to another
+      // stacked math symbol.
+      if (nextWord->isPartOfStackedMathSymbol || !nextWord->isBaseOfStackedMathSymbol.empty()) {
+        _log->debug(p) << BOLD << "is *not* part of the stacked math symbol "
+            << "(belongs to another one)." << OFF << endl;
+        break;
+      }
+
       // The next word is not a part of the stacked math symbol when the maximum x-overlap ratio is
       // smaller than a threshold.
       double maxXOverlapRatio = computeMaxXOverlapRatio(word, nextWord);
-- 
2.43.0


From 8f32f9b5b7c5fbc1a5767c2e804f6688e0971435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 08/62] fix: do not lose text when a word is hyphenated across
 more than two lines

---
 src/WordsDehyphenation.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/WordsDehyphenation.cpp b/src/WordsDehyphenation.cpp
index c7a7a82..7aaac13 100755
--- a/src/WordsDehyphenation.cpp
+++ b/src/WordsDehyphenation.cpp
@@ -38,6 +38,7 @@ void WordsDehyphenation::process() const {
   assert(_doc);
 
   PdfTextLine* prevLine = nullptr;
+  PdfWord* mergedWord = nullptr;
   for (const auto* page : _doc->pages) {
     for (const auto* block : page->blocks) {
       for (auto* line : block->lines) {
@@ -60,9 +61,14 @@ void WordsDehyphenation::process() const {
             string currLineFirstWordText = currLineFirstWord->text;
 
             if (isHyphenated) {
-              PdfWord* mergedWord = new PdfWord();
-              mergedWord->doc = _doc;
-              mergedWord->text = prevLineLastWordText.substr(0, prevLineLastWordText.length() - 1);
+              // If the last word of the previous line is itself the second part of a hyphenated
+              // word (because the line consists only of this word), extend this hyphenated word.
+              if (!prevLineLastWord->isSecondPartOfHyphenatedWord) {
+                mergedWord = new PdfWord();
+                mergedWord->doc = _doc;
+                mergedWord->text = prevLineLastWordText;
+              }
+              mergedWord->text.pop_back();
               mergedWord->text += currLineFirstWordText;
 
               prevLineLastWord->isFirstPartOfHyphenatedWord = mergedWord;
-- 
2.43.0


From 414fc3eb0635bb958c533b3ee30856c86b46ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 09/62] fix: write the second part of a hyphenated word if the
 block of the first part is not written

---
 src/serializers/PlainTextExtendedSerializer.cpp | 9 ++++++---
 src/serializers/PlainTextSerializer.cpp         | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/serializers/PlainTextExtendedSerializer.cpp b/src/serializers/PlainTextExtendedSerializer.cpp
index 9d9df11..1b1a702 100755
--- a/src/serializers/PlainTextExtendedSerializer.cpp
+++ b/src/serializers/PlainTextExtendedSerializer.cpp
@@ -47,6 +47,7 @@ void PlainTextExtendedSerializer::serializeToStream(const PdfDocument* doc,
   assert(doc);
 
   PdfTextBlock* prevBlock = nullptr;
+  const PdfWord* hyphenatedWord = nullptr;  // The last hyphenated word that was written.
   for (auto* page : doc->pages) {
     for (auto* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
@@ -73,8 +74,9 @@ void PlainTextExtendedSerializer::serializeToStream(const PdfDocument* doc,
       for (auto* line : block->lines) {
         for (auto* word : line->words) {
           // Ignore the second part of hyphenated words, since their text is included in the text
-          // of the first part of the hyphenated word.
-          if (word->isSecondPartOfHyphenatedWord) {
+          // of the first part of the hyphenated word (unless the first part was not written).
+          if (word->isSecondPartOfHyphenatedWord
+                && word->isSecondPartOfHyphenatedWord == hyphenatedWord) {
             continue;
           }
 
@@ -87,7 +89,8 @@ void PlainTextExtendedSerializer::serializeToStream(const PdfDocument* doc,
           // character (their text is part of the base character).
           if (word->isFirstPartOfHyphenatedWord) {
             // TODO(korzen): Hyphenated words should be also processed character-wise.
-            out << word->isFirstPartOfHyphenatedWord->text;
+            hyphenatedWord = word->isFirstPartOfHyphenatedWord;
+            out << hyphenatedWord->text;
           } else {
             for (const auto* ch : word->characters) {
               if (ch->isBaseCharOfDiacriticMark) {
diff --git a/src/serializers/PlainTextSerializer.cpp b/src/serializers/PlainTextSerializer.cpp
index 6e18e75..3e86e46 100755
--- a/src/serializers/PlainTextSerializer.cpp
+++ b/src/serializers/PlainTextSerializer.cpp
@@ -41,6 +41,7 @@ void PlainTextSerializer::serializeToStream(const PdfDocument* doc,
   assert(doc);
 
   PdfTextBlock* prevBlock = nullptr;
+  const PdfWord* hyphenatedWord = nullptr;  // The last hyphenated word that was written.
   for (auto* page : doc->pages) {
     for (auto* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
@@ -57,8 +58,9 @@ void PlainTextSerializer::serializeToStream(const PdfDocument* doc,
       for (auto* line : block->lines) {
         for (auto* word : line->words) {
           // Ignore the second part of hyphenated words, since their text is included in the text
-          // of the first part of the hyphenated word.
-          if (word->isSecondPartOfHyphenatedWord) {
+          // of the first part of the hyphenated word (unless the first part was not written).
+          if (word->isSecondPartOfHyphenatedWord
+                && word->isSecondPartOfHyphenatedWord == hyphenatedWord) {
             continue;
           }
 
@@ -71,7 +73,8 @@ void PlainTextSerializer::serializeToStream(const PdfDocument* doc,
           // character (their text is part of the base character).
           if (word->isFirstPartOfHyphenatedWord) {
             // TODO(korzen): Hyphenated words should be also processed character-wise.
-            out << word->isFirstPartOfHyphenatedWord->text;
+            hyphenatedWord = word->isFirstPartOfHyphenatedWord;
+            out << hyphenatedWord->text;
           } else {
             for (const auto* ch : word->characters) {
               if (ch->isBaseCharOfDiacriticMark) {
-- 
2.43.0


From add6c723128af8a56b758418da98875135404189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 10/62] fix: choose random strings from the whole alphabet

---
 src/utils/TextUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index a9e2081..097a6c4 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -92,7 +92,7 @@ string createRandomString(unsigned int len, const string& prefix, const char* co
   // Append <len>-many random alphanumerical characters.
   int alphabetSize = strlen(alphabet);
   for (unsigned int i = 0; i < len; i++) {
-    str += alphabet[rand() % (alphabetSize - 1)];
+    str += alphabet[rand() % alphabetSize];
   }
 
   return str;
-- 
2.43.0


From 64ee9c0c6a28933f182338a7cf752b6c4c4827cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 11/62] fix: do not read beyond the ends of a blank string on
 stripping it

---
 src/utils/TextUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index 097a6c4..37ec557 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -150,8 +150,8 @@ string strip(const string& str) {
   auto start_it = str.begin();
   auto end_it = str.rbegin();
 
-  while (isspace(*start_it)) { start_it++; }
-  while (isspace(*end_it)) { end_it++; }
+  while (start_it != str.end() && isspace(static_cast<unsigned char>(*start_it))) { start_it++; }
+  while (end_it.base() != start_it && isspace(static_cast<unsigned char>(*end_it))) { end_it++; }
 
   return string(start_it, end_it.base());
 }
-- 
2.43.0


From 17681ae07d40994956ffd2aaa8590b70cb0a5eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 12/62] fix: separate empty strings on joining strings

---
 src/utils/TextUtils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index 37ec557..9c41d86 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -199,11 +199,11 @@ string wrap(const string& str, unsigned int width, unsigned int indent) {
 // _________________________________________________________________________________________________
 string join(const vector<string>& strings, const string& sep) {
   string resultStr = "";
-  for (const auto& s : strings) {
-      if (resultStr.size() > 0) {
+  for (size_t i = 0; i < strings.size(); i++) {
+      if (i > 0) {
         resultStr += sep;
       }
-      resultStr += s;
+      resultStr += strings[i];
   }
   return resultStr;
 }
-- 
2.43.0


From 5c8753c285217ed3253386b2078039862a8b4b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 13/62] fix: wrap and indent every line of a text

---
 src/utils/TextUtils.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index 9c41d86..41b7f73 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -165,8 +165,8 @@ string wrap(const string& str, unsigned int width, unsigned int indent) {
   unsigned int lineEnd = 0;
   while (true) {
     // Check if the string needs to be wrapped because it contains an explicit newline character.
-    lineEnd = str.rfind("\n", lineStart + width - indent);
-    if (lineEnd >= lineStart && lineEnd <= str.size()) {
+    lineEnd = str.find("\n", lineStart);
+    if (lineEnd <= str.size() && lineEnd - lineStart <= width - indent) {
       for (unsigned int i = 0; i < indent; i++) { result += " "; }
       result += str.substr(lineStart, lineEnd - lineStart);
       result += "\n";
@@ -175,13 +175,17 @@ string wrap(const string& str, unsigned int width, unsigned int indent) {
     }
 
     // Check if the string needs to be wrapped because it is too long.
-    lineEnd = str.rfind(" ", lineStart + width - indent);
-    if (lineEnd < lineStart || lineEnd > str.size()) {
+    // Don't wrap if the rest of the string fits into a single line.
+    if (str.size() - lineStart <= width - indent) {
       break;
     }
-    // Don't wrap if the string would be split in two parts whose accumulated width is <= width.
-    if ((lineEnd - lineStart) + (str.size() - lineEnd) <= width) {
-      break;
+    lineEnd = str.rfind(" ", lineStart + width - indent);
+    if (lineEnd < lineStart || lineEnd > str.size()) {
+      // The next word is longer than a line.
+      lineEnd = str.find_first_of(" \n", lineStart);
+      if (lineEnd > str.size()) {
+        break;
+      }
     }
     // Append the indent and the line to the result.
     for (unsigned int i = 0; i < indent; i++) { result += " "; }
-- 
2.43.0


From 1adc892b94f659f5f068db521391fedc3f008007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 14/62] fix: do not use the smallest positive double as the
 initial value of a maximum

---
 src/PdfParsing.cpp                     |  4 ++--
 src/ReadingOrderDetection.cpp          |  4 ++--
 src/SemanticRolesPrediction.cpp        |  2 +-
 src/TextLinesDetection.cpp             |  4 ++++
 src/Types.h                            | 24 ++++++++++++------------
 src/WordsDetection.cpp                 |  8 ++++----
 src/utils/Counter.cpp                  |  5 ++---
 src/utils/PageSegmentationUtils.cpp    |  6 ++++++
 src/utils/TextBlocksDetectionUtils.cpp |  4 ++++
 src/utils/WordsDetectionUtils.cpp      |  4 ++++
 src/utils/XYCut.cpp                    |  4 ++--
 11 files changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 9acff93..89d031d 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -613,8 +613,8 @@ void PdfParsing::stroke(GfxState* state) {
   double x, y;
   double leftX = numeric_limits<double>::max();
   double upperY = numeric_limits<double>::max();
-  double rightX = numeric_limits<double>::min();
-  double lowerY = numeric_limits<double>::min();
+  double rightX = numeric_limits<double>::lowest();
+  double lowerY = numeric_limits<double>::lowest();
   const GfxPath* path = state->getPath();
   for (int i = 0; i < path->getNumSubpaths(); i++) {
     const GfxSubpath* subpath = path->getSubpath(i);
diff --git a/src/ReadingOrderDetection.cpp b/src/ReadingOrderDetection.cpp
index a46bef1..685d4ab 100755
--- a/src/ReadingOrderDetection.cpp
+++ b/src/ReadingOrderDetection.cpp
@@ -108,8 +108,8 @@ void ReadingOrderDetection::detectReadingOrder() {
     // Compute the coordinates of the bounding box around the page elements.
     _pageElementsMinX = numeric_limits<double>::max();
     _pageElementsMinY = numeric_limits<double>::max();
-    _pageElementsMaxX = numeric_limits<double>::min();
-    _pageElementsMaxY = numeric_limits<double>::min();
+    _pageElementsMaxX = numeric_limits<double>::lowest();
+    _pageElementsMaxY = numeric_limits<double>::lowest();
     for (const auto* element : pageElements) {
       _pageElementsMinX = minimum(_pageElementsMinX, element->pos->leftX);
       _pageElementsMinY = minimum(_pageElementsMinY, element->pos->upperY);
diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index 43ed1f9..18c6092 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -174,7 +174,7 @@ cppflow::tensor SemanticRolesPrediction::createLayoutInputTensor(const PdfDocume
   // Iterate through the text blocks of the document to count the total number of text blocks and
   // some document-wide statistics (e.g., the largest font size).
   float minFontSize = numeric_limits<float>::max();
-  float maxFontSize = numeric_limits<float>::min();
+  float maxFontSize = numeric_limits<float>::lowest();
   int numBlocks = 0;
   for (const auto* page : doc->pages) {
     for (const auto* block : page->blocks) {
diff --git a/src/TextLinesDetection.cpp b/src/TextLinesDetection.cpp
index 87be871..15f3da4 100755
--- a/src/TextLinesDetection.cpp
+++ b/src/TextLinesDetection.cpp
@@ -422,6 +422,10 @@ void TextLinesDetection::computeTextLineProperties(PdfTextLine* line) const {
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
   DoubleCounter baseCounter;
+  line->pos->leftX = numeric_limits<double>::max();
+  line->pos->upperY = numeric_limits<double>::max();
+  line->pos->rightX = numeric_limits<double>::lowest();
+  line->pos->lowerY = numeric_limits<double>::lowest();
   for (size_t i = 0; i < line->words.size(); i++) {
     PdfWord* word = line->words[i];
 
diff --git a/src/Types.h b/src/Types.h
index 078e739..d80d64a 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -664,8 +664,8 @@ class PdfTextLine : public PdfTextElement {
   // text line that are *not* subscripted or superscripted.
   double baseBBoxLeftX = numeric_limits<double>::max();
   double baseBBoxUpperY = numeric_limits<double>::max();
-  double baseBBoxRightX = numeric_limits<double>::min();
-  double baseBBoxLowerY = numeric_limits<double>::min();
+  double baseBBoxRightX = numeric_limits<double>::lowest();
+  double baseBBoxLowerY = numeric_limits<double>::lowest();
 
   // The maximum font size among the characters in this text line.
   double maxFontSize = 0.0;
@@ -778,8 +778,8 @@ class PdfTextBlock : public PdfTextElement {
   // do *not* extend beyond the actual segment boundaries.
   double trimLeftX = numeric_limits<double>::max();
   double trimUpperY = numeric_limits<double>::max();
-  double trimRightX = numeric_limits<double>::min();
-  double trimLowerY = numeric_limits<double>::min();
+  double trimRightX = numeric_limits<double>::lowest();
+  double trimLowerY = numeric_limits<double>::lowest();
 
   // A reference to the previous text block in the document.
   const PdfTextBlock* prevBlock = nullptr;
@@ -854,8 +854,8 @@ class PdfFigure : public PdfNonTextElement {
   // necessarily have to be adjacent to the clip box.
   double clipLeftX = numeric_limits<double>::max();
   double clipUpperY = numeric_limits<double>::max();
-  double clipRightX = numeric_limits<double>::min();
-  double clipLowerY = numeric_limits<double>::min();
+  double clipRightX = numeric_limits<double>::lowest();
+  double clipLowerY = numeric_limits<double>::lowest();
 
   /**
    * This method returns a string representation of this figure, for debugging purposes.
@@ -976,8 +976,8 @@ class PdfPageSegment : public PdfElement {
   // segment boundaries.
   double trimLeftX = numeric_limits<double>::max();
   double trimUpperY = numeric_limits<double>::max();
-  double trimRightX = numeric_limits<double>::min();
-  double trimLowerY = numeric_limits<double>::min();
+  double trimRightX = numeric_limits<double>::lowest();
+  double trimLowerY = numeric_limits<double>::lowest();
 
   /**
    * This method returns a string representation of this segment, for debugging purposes.
@@ -1042,8 +1042,8 @@ class PdfPage {
   // All elements (or parts of elements) outside the clip box are not visible in the PDF.
   double clipLeftX = numeric_limits<double>::max();
   double clipUpperY = numeric_limits<double>::max();
-  double clipRightX = numeric_limits<double>::min();
-  double clipLowerY = numeric_limits<double>::min();
+  double clipRightX = numeric_limits<double>::lowest();
+  double clipLowerY = numeric_limits<double>::lowest();
 
   // The XY-cuts made to detect the text blocks on this page.
   vector<Cut*> blockDetectionCuts;
@@ -1190,8 +1190,8 @@ class Cut {
   // Y-cuts represent horizontal lines, so y1 and y2 should be equal for Y-cuts.
   double x1 = numeric_limits<double>::max();
   double y1 = numeric_limits<double>::max();
-  double x2 = numeric_limits<double>::min();
-  double y2 = numeric_limits<double>::min();
+  double x2 = numeric_limits<double>::lowest();
+  double y2 = numeric_limits<double>::lowest();
 
   // A boolean flag indicating whether or not this cut was actually chosen by the `PageSegmentator`
   // class or `ReadingOrderDetector` class.
diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index f1a550a..4c94c7a 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -83,8 +83,8 @@ void WordsDetection::detectWords(PdfPage* page) {
   _activeWord.pos->pageNum = page->pageNum;
   _activeWord.pos->leftX = numeric_limits<double>::max();
   _activeWord.pos->upperY = numeric_limits<double>::max();
-  _activeWord.pos->rightX = numeric_limits<double>::min();
-  _activeWord.pos->lowerY = numeric_limits<double>::min();
+  _activeWord.pos->rightX = numeric_limits<double>::lowest();
+  _activeWord.pos->lowerY = numeric_limits<double>::lowest();
   _activeWord.pos->rotation = 0;
   _activeWord.pos->wMode = 0;
   _activeWord.fontSize = 0;
@@ -139,8 +139,8 @@ void WordsDetection::detectWords(PdfPage* page) {
       _activeWord.characters.clear();
       _activeWord.pos->leftX = numeric_limits<double>::max();
       _activeWord.pos->upperY = numeric_limits<double>::max();
-      _activeWord.pos->rightX = numeric_limits<double>::min();
-      _activeWord.pos->lowerY = numeric_limits<double>::min();
+      _activeWord.pos->rightX = numeric_limits<double>::lowest();
+      _activeWord.pos->lowerY = numeric_limits<double>::lowest();
       _activeWord.pos->rotation = 0;
       _activeWord.pos->wMode = 0;
       _activeWord.fontSize = 0;
diff --git a/src/utils/Counter.cpp b/src/utils/Counter.cpp
index 29e0e1d..6563a37 100755
--- a/src/utils/Counter.cpp
+++ b/src/utils/Counter.cpp
@@ -19,7 +19,6 @@ using std::pair;
 using std::runtime_error;
 using std::string;
 
-using ppp::utils::math::larger;
 
 // =================================================================================================
 
@@ -56,11 +55,11 @@ pair<double, unsigned int> DoubleCounter::mostFreqAndCount() const {
 
 // _________________________________________________________________________________________________
 double DoubleCounter::max() const {
-  double max = numeric_limits<double>::min();
+  double max = numeric_limits<double>::lowest();
   bool entryFound = false;
 
   for (auto it = begin(); it != end(); it++) {
-    if (it->second > 0 && larger(it->first, max)) {
+    if (it->second > 0 && (!entryFound || it->first > max)) {
       max = it->first;
       entryFound = true;
     }
diff --git a/src/utils/PageSegmentationUtils.cpp b/src/utils/PageSegmentationUtils.cpp
index 27b07eb..7b639d8 100755
--- a/src/utils/PageSegmentationUtils.cpp
+++ b/src/utils/PageSegmentationUtils.cpp
@@ -47,6 +47,12 @@ PdfPageSegment* PageSegmentationUtils::createPageSegment(
   segment->pos->pageNum = !elements.empty() ? elements[0]->pos->pageNum : -1;
 
   // Compute and set the coordinates of the bounding box.
+  if (!elements.empty()) {
+    segment->pos->leftX = numeric_limits<double>::max();
+    segment->pos->upperY = numeric_limits<double>::max();
+    segment->pos->rightX = numeric_limits<double>::lowest();
+    segment->pos->lowerY = numeric_limits<double>::lowest();
+  }
   for (const auto* element : elements) {
     segment->pos->leftX = minimum(segment->pos->leftX, element->pos->leftX);
     segment->pos->upperY = minimum(segment->pos->upperY, element->pos->upperY);
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 0d7d15a..d7482dc 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -702,6 +702,10 @@ void TextBlocksDetectionUtils::createTextBlock(const vector<PdfTextLine*>& lines
   // Compute the bounding box and the trim box and count the different font names and font sizes.
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
+  block->pos->leftX = numeric_limits<double>::max();
+  block->pos->upperY = numeric_limits<double>::max();
+  block->pos->rightX = numeric_limits<double>::lowest();
+  block->pos->lowerY = numeric_limits<double>::lowest();
   for (size_t i = 0; i < lines.size(); i++) {
     PdfTextLine* prevLine = i > 0 ? lines[i-1] : nullptr;
     PdfTextLine* currLine = lines[i];
diff --git a/src/utils/WordsDetectionUtils.cpp b/src/utils/WordsDetectionUtils.cpp
index f62a499..b02e4da 100755
--- a/src/utils/WordsDetectionUtils.cpp
+++ b/src/utils/WordsDetectionUtils.cpp
@@ -56,6 +56,10 @@ PdfWord* WordsDetectionUtils::createWord(const vector<PdfCharacter*>& characters
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
   string text;
+  word->pos->leftX = numeric_limits<double>::max();
+  word->pos->upperY = numeric_limits<double>::max();
+  word->pos->rightX = numeric_limits<double>::lowest();
+  word->pos->lowerY = numeric_limits<double>::lowest();
   for (auto* ch : characters) {
     // Update the x,y-coordinates of the bounding box.
     word->pos->leftX = minimum(word->pos->leftX, ch->pos->leftX);
diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 0306b63..161dbde 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -111,7 +111,7 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
 
   // Compute minY and maxY among the elements, needed for computing the y-coordinates of the cuts.
   double elementsMinY = numeric_limits<double>::max();
-  double elementsMaxY = numeric_limits<double>::min();
+  double elementsMaxY = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinY = minimum(elementsMinY, element->pos->upperY);
     elementsMaxY = maximum(elementsMaxY, element->pos->lowerY);
@@ -242,7 +242,7 @@ bool yCut(const vector<PdfElement*>& elements, double minGapHeight,
 
   // Compute minY and maxY among the elements, needed for computing the x-coordinates of the cuts.
   double elementsMinX = numeric_limits<double>::max();
-  double elementsMaxX = numeric_limits<double>::min();
+  double elementsMaxX = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinX = minimum(elementsMinX, element->pos->leftX);
     elementsMaxX = maximum(elementsMaxX, element->pos->rightX);
-- 
2.43.0


From 2cbcb0225fcbbb00cefbdded4aebd085b6708941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 15/62] fix: ignore paths without any visible point instead of
 storing them with undefined coordinates

---
 src/PdfParsing.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 89d031d..869e3ba 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -643,6 +643,12 @@ void PdfParsing::stroke(GfxState* state) {
     }
   }
 
+  // Ignore the path if none of its points is visible.
+  if (larger(leftX, rightX)) {
+    _log->debug(_p) << BOLD << "Skipping the path (has no visible points)." << OFF << endl;
+    return;
+  }
+
   // Store the information about the path in form of a `PdfShape`.
   PdfShape* shape = new PdfShape();
   shape->id = createRandomString(_config.idLength, "shape-");
-- 
2.43.0


From 57d9da977c95bb236545002708651daa93d837cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 16/62] fix: identify nameless fonts by their object ids
 instead of by (reusable) addresses

---
 src/PdfParsing.cpp              | 8 ++++----
 src/utils/PdfFontInfoParser.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 869e3ba..c4fcc59 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -134,10 +134,10 @@ void PdfParsing::updateFont(GfxState* state) {
   }
 
   // Get the font name. In some cases (e.g., if the type of the font is "type-3"), the gfxFont
-  // may not provide a font name. In this case, use the pointer address of the font instead.
-  stringstream gfxFontAddress;
-  gfxFontAddress << gfxFont;
-  string fontName = gfxFontAddress.str();
+  // may not provide a font name. In this case, use the object id of the font instead.
+  stringstream gfxFontId;
+  gfxFontId << "font-" << gfxFont->getID()->num << "-" << gfxFont->getID()->gen;
+  string fontName = gfxFontId.str();
   const optional<string> gooFontName = gfxFont->getName();
   if (gooFontName) {
     fontName = move(*gooFontName);
diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 0636a59..12234a1 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -61,10 +61,10 @@ PdfFontInfo* PdfFontInfoParser::parse(
   }
 
   // Get the font name. In some cases (e.g., if the type of the font is "type-3"), the gfxFont
-  // may not provide a font name. So use the pointer address of the font as default font name.
-  stringstream gfxFontAddress;
-  gfxFontAddress << gfxFont;
-  string fontName = gfxFontAddress.str();
+  // may not provide a font name. So use the object id of the font as default font name.
+  stringstream gfxFontId;
+  gfxFontId << "font-" << gfxFont->getID()->num << "-" << gfxFont->getID()->gen;
+  string fontName = gfxFontId.str();
 
   // If the font provide a font name, take this.
   const std::optional<string> gooFontName = gfxFont->getName();
-- 
2.43.0


From 8b483a9f66cb4323bc6f307e59aa26d1f71d4daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 17/62] fix: do not write more than six values to the font
 matrix

---
 src/utils/PdfFontInfoParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 12234a1..393a11c 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -272,7 +272,7 @@ void Type1FontFileParser::parseAsciiPart(Object* strObj, int length, PdfFontInfo
             istringstream lineSS(line.substr(lSquarePos, rSquarePos - lSquarePos));
             double d;
             int k = 0;
-            while (lineSS >> d) {
+            while (k < 6 && lineSS >> d) {
               fontInfo->fontMatrix[k++] = d;
             }
           }
-- 
2.43.0


From d76b33a88715b624edf60c4a8a75d194692673ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 18/62] fix: do not read the encrypted part of a Type 1 font
 beyond the end of a buffer

---
 src/utils/PdfFontInfoParser.cpp | 44 ++++++++++++++-------------------
 src/utils/PdfFontInfoParser.h   |  5 ----
 2 files changed, 18 insertions(+), 31 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 393a11c..1282868 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -332,9 +332,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     }
   }
 
-  int numBytes = isPfb ? length : length / 2;
-  char* bytes = new char[numBytes];
-  int b = 0;
+  string bytes;
   int c;
 
   if (isPfb) {
@@ -343,44 +341,38 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
           (strObj->streamGetChar() << 24);
     } else {
       for (int i = 0; i < 4; i++) {
-        char c1 = _hexToChar[(start[i] >> 4) & 0x0f];
-        char c2 = _hexToChar[start[i] & 0x0f];
-        bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-        b++;
+        bytes.push_back(start[i]);
       }
     }
 
-    for (int i = b; i < length; i++) {
+    for (int i = bytes.size(); i < length; i++) {
       if ((c = strObj->streamGetChar()) == EOF) {
         break;
       }
-      char c1 = _hexToChar[(c >> 4) & 0x0f];
-      char c2 = _hexToChar[c & 0x0f];
-      bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
+      bytes.push_back(c);
     }
   } else {
-    for (int i = 0; i < 4; i += 2) {
-      bytes[i] = 16 * _charToHex[start[i]] + _charToHex[start[i+1]];
-      b++;
-    }
-    for (int i = 4; i < length; i += 2) {
-      char c1;
-      if ((c1 = strObj->streamGetChar()) == EOF) {
+    // Ignore all characters that are not hex digits (for example, line breaks).
+    int digit = -1;
+    for (int i = 0; i < length; i++) {
+      if ((c = i < 4 ? start[i] : strObj->streamGetChar()) == EOF) {
         break;
       }
-      char c2;
-      if ((c2 = strObj->streamGetChar()) == EOF) {
-        break;
+      if (!isxdigit(c)) {
+        continue;
+      }
+      int nextDigit = _charToHex[tolower(c)];
+      if (digit < 0) {
+        digit = nextDigit;
+      } else {
+        bytes.push_back(16 * digit + nextDigit);
+        digit = -1;
       }
-      bytes[i] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
     }
   }
 
   string decrypted;
-  decrypt(bytes, b, 55665, 4, &decrypted);
-  delete[] bytes;
+  decrypt(bytes.data(), bytes.size(), 55665, 4, &decrypted);
 
   // Parse the "/lenIV" part.
   int lenIV = 4;
diff --git a/src/utils/PdfFontInfoParser.h b/src/utils/PdfFontInfoParser.h
index 33971db..51644bc 100755
--- a/src/utils/PdfFontInfoParser.h
+++ b/src/utils/PdfFontInfoParser.h
@@ -123,11 +123,6 @@ class Type1FontFileParser {
   unordered_map<char, int> _charToHex{ { '0', 0 }, { '1', 1 }, { '2', 2 }, { '3', 3 },
       { '4', 4 }, { '5', 5 }, { '6', 6 }, { '7', 7 }, { '8', 8 }, { '9', 9 }, { 'a', 10 },
       { 'b', 11 }, { 'c', 12 }, { 'd', 13 }, { 'e', 14 }, { 'f', 15 } };
-
-  /** The reverse mapping of `charToHex`. */
-  unordered_map<int, char> _hexToChar{ { 0, '0' }, { 1, '1' }, { 2, '2' }, { 3, '3' },
-      { 4, '4' }, { 5, '5' }, { 6, '6' }, { 7, '7' }, { 8, '8' }, { 9, '9' }, { 10, 'a' },
-      { 11, 'b' }, { 12, 'c' }, { 13, 'd' }, { 14, 'e' }, { 15, 'f' } };
 };
 
 }  // namespace ppp::utils::fonts
-- 
2.43.0


From 66b16f9952bbb6b76c051d0d427272b4ba3e01b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 19/62] fix: do not end the subroutines of a Type 1 font at the
 first subroutine that contains "ND"

---
 src/utils/PdfFontInfoParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 1282868..406e46b 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -381,7 +381,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     lenIVStart += 7;
     size_t lenIVEnd = decrypted.find(" ", lenIVStart);
     if (lenIVEnd != string::npos) {
-      lenIV = stoi(decrypted.substr(lenIVStart, lenIVEnd - lenIVStart));
+      lenIV = atoi(decrypted.substr(lenIVStart, lenIVEnd - lenIVStart).c_str());
     }
   }
 
@@ -393,7 +393,9 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   }
   subrsStart += 6;
 
-  size_t subrsEnd = decrypted.find("ND", subrsStart);
+  // NOTE: The (binary) subroutines can contain arbitrary sequences of characters, in particular the
+  // "ND" that ends the array.
+  size_t subrsEnd = decrypted.find("/CharStrings", subrsStart);
   if (subrsEnd == string::npos) {
     // TODO(korzen): Print warning.
     return;
-- 
2.43.0


From cc7476f93c72966bfa1ab540d1a98d17d9520a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 20/62] fix: do not crash on implausible numbers and lengths in
 Type 1 font programs

---
 src/utils/PdfFontInfoParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 406e46b..0b2927e 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -402,7 +402,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   }
 
   string subrs = decrypted.substr(subrsStart, subrsEnd - subrsStart);
-  regex dupRegex("dup\\s(\\d+)\\s(\\d+)\\sRD\\s");
+  regex dupRegex("dup\\s(\\d{1,9})\\s(\\d{1,9})\\sRD\\s");
   auto dupBegin = sregex_iterator(subrs.begin(), subrs.end(), dupRegex);
   auto dupEnd = sregex_iterator();
 
@@ -415,7 +415,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     string dupstring = subrs.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedDupString;
-    decrypt(dupstring.c_str(), nnumBytes, 4330, lenIV, &decryptedDupString);
+    decrypt(dupstring.data(), dupstring.size(), 4330, lenIV, &decryptedDupString);
 
     subrsMap[index] = decryptedDupString;
   }
@@ -435,7 +435,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
 
   string charstrings = decrypted.substr(charStringsStart);
 
-  regex words_regex("\\/(\\S+)\\s+(\\d+)\\sRD\\s");
+  regex words_regex("\\/(\\S{1,127})\\s{1,9}(\\d{1,9})\\sRD\\s");
   auto words_begin = sregex_iterator(charstrings.begin(), charstrings.end(), words_regex);
   auto words_end = sregex_iterator();
 
@@ -447,7 +447,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     string charstring = charstrings.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedCharString;
-    decrypt(charstring.c_str(), nnumBytes, 4330, lenIV, &decryptedCharString);
+    decrypt(charstring.data(), charstring.size(), 4330, lenIV, &decryptedCharString);
 
     int leftX = numeric_limits<int>::max();
     int upperY = numeric_limits<int>::max();
-- 
2.43.0


From e28762300fc103a212523ca3492563750a5ac50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 21/62] fix: do not crash on invalid char strings in Type 1
 font programs

---
 src/utils/PdfFontInfoParser.cpp | 161 ++++++++++++++++----------------
 src/utils/PdfFontInfoParser.h   |   6 +-
 2 files changed, 86 insertions(+), 81 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 0b2927e..7921d9c 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -449,14 +449,14 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     string decryptedCharString;
     decrypt(charstring.data(), charstring.size(), 4330, lenIV, &decryptedCharString);
 
-    int leftX = numeric_limits<int>::max();
-    int upperY = numeric_limits<int>::max();
-    int rightX = numeric_limits<int>::min();
-    int lowerY = numeric_limits<int>::min();
-    int curX = 0;
-    int curY = 0;
-    vector<int> args;
-    vector<int> interpreterStack;
+    int64_t leftX = numeric_limits<int>::max();
+    int64_t upperY = numeric_limits<int>::max();
+    int64_t rightX = numeric_limits<int>::min();
+    int64_t lowerY = numeric_limits<int>::min();
+    int64_t curX = 0;
+    int64_t curY = 0;
+    vector<int64_t> args;
+    vector<int64_t> interpreterStack;
     parseCharString(decryptedCharString, subrsMap, &curX, &curY, &leftX, &upperY, &rightX, &lowerY,
         &args, &interpreterStack);
     fontInfo->glyphBoundingBoxes[charName] = make_tuple(leftX, upperY, rightX, lowerY);
@@ -465,9 +465,13 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
 
 // _________________________________________________________________________________________________
 void Type1FontFileParser::parseCharString(const string& charString,
-    const unordered_map<int, string>& subrs, int* curX, int* curY,
-    int* leftX, int* upperY, int* rightX, int* lowerY,
-    vector<int>* args, vector<int>* interpreterStack) const {
+    const unordered_map<int, string>& subrs, int64_t* curX, int64_t* curY,
+    int64_t* leftX, int64_t* upperY, int64_t* rightX, int64_t* lowerY,
+    vector<int64_t>* args, vector<int64_t>* interpreterStack, int depth) const {
+  // Abort if the subroutines are nested too deeply (the limit of the specification is 10).
+  if (depth > 10) {
+    return;
+  }
 
   for (size_t t = 0; t < charString.size(); t++) {
     unsigned char byte = charString[t] & 0xff;
@@ -502,7 +506,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
           break;
         case 4:  // dy vmoveto
           if (args->size() >= 1) {
-            int dy = args->back();
+            int64_t dy = args->back();
             args->pop_back();
 
             *curY += dy;
@@ -512,9 +516,9 @@ void Type1FontFileParser::parseCharString(const string& charString,
           break;
         case 5:  // dx dy rlineto
           if (args->size() >= 2) {
-            int dy = args->back();
+            int64_t dy = args->back();
             args->pop_back();
-            int dx = args->back();
+            int64_t dx = args->back();
             args->pop_back();
 
             *curX += dx;
@@ -527,7 +531,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
           break;
         case 6:  // dx hlineto
           if (args->size() >= 1) {
-            int dx = args->back();
+            int64_t dx = args->back();
             args->pop_back();
 
             *curX += dx;
@@ -537,7 +541,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
           break;
         case 7:  // dy vlineto
           if (args->size() >= 1) {
-            int dy = args->back();
+            int64_t dy = args->back();
             args->pop_back();
 
             *curY += dy;
@@ -547,25 +551,25 @@ void Type1FontFileParser::parseCharString(const string& charString,
           break;
         case 8:  // dx1 dy1 dx2 dy2 dx3 dy3 rrcurveto
           if (args->size() >= 6) {
-            int dy3 = args->back();
+            int64_t dy3 = args->back();
             args->pop_back();
-            int dx3 = args->back();
+            int64_t dx3 = args->back();
             args->pop_back();
-            int dy2 = args->back();
+            int64_t dy2 = args->back();
             args->pop_back();
-            int dx2 = args->back();
+            int64_t dx2 = args->back();
             args->pop_back();
-            int dy1 = args->back();
+            int64_t dy1 = args->back();
             args->pop_back();
-            int dx1 = args->back();
+            int64_t dx1 = args->back();
             args->pop_back();
 
-            int x1 = *curX + dx1;
-            int y1 = *curY + dy1;
-            int x2 = x1 + dx2;
-            int y2 = y1 + dy2;
-            int x3 = x2 + dx3;
-            int y3 = y2 + dy3;
+            int64_t x1 = *curX + dx1;
+            int64_t y1 = *curY + dy1;
+            int64_t x2 = x1 + dx2;
+            int64_t y2 = y1 + dy2;
+            int64_t x3 = x2 + dx3;
+            int64_t y3 = y2 + dy3;
 
             *curX = x3;
             *curY = y3;
@@ -577,7 +581,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
           break;
         case 10:  // subr# callsubr
           if (args->size() >= 1) {
-            int index = args->back();
+            int64_t index = args->back();
             args->pop_back();
 
             if (!subrs.count(index)) {
@@ -585,12 +589,12 @@ void Type1FontFileParser::parseCharString(const string& charString,
             }
 
             parseCharString(subrs.at(index), subrs, curX, curY, leftX, upperY, rightX, lowerY, args,
-                interpreterStack);
+                interpreterStack, depth + 1);
           }
           break;
         case 12:  // escape
           {
-            unsigned char byte2 = charString[++t] & 0xff;
+            unsigned char byte2 = ++t < charString.size() ? charString[t] : 0;
 
             switch (byte2) {
               case 0:  // dotsection
@@ -628,9 +632,9 @@ void Type1FontFileParser::parseCharString(const string& charString,
                 if (args->size() >= 4) {
                   args->pop_back();
                   args->pop_back();
-                  int sby = args->back();
+                  int64_t sby = args->back();
                   args->pop_back();
-                  int sbx = args->back();
+                  int64_t sbx = args->back();
                   args->pop_back();
 
                   *curX = sbx;
@@ -643,51 +647,52 @@ void Type1FontFileParser::parseCharString(const string& charString,
                 break;
               case 12:  // num1 num2 div
                 if (args->size() >= 2) {
-                  int num2 = args->back();
+                  int64_t num2 = args->back();
                   args->pop_back();
-                  int num1 = args->back();
+                  int64_t num1 = args->back();
                   args->pop_back();
 
-                  int result = num1 / num2;  // TODO(korzen): float
+                  int64_t result = num2 != 0 ? num1 / num2 : 0;  // TODO(korzen): float
 
                   args->push_back(result);
                 }
                 break;
               case 16:  // arg1 ... argn n othersubr# callothersubr
                 if (args->size() >= 2) {
-                  int othersubr = args->back();
+                  int64_t othersubr = args->back();
                   args->pop_back();
-                  int numArgs = args->back();
+                  int64_t numArgs = args->back();
                   args->pop_back();
 
 
                   interpreterStack->clear();
                   switch (othersubr) {
                     case 0:
-                      {
-                        int n1 = args->back();
+                      if (args->size() >= 3) {
+                        int64_t n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
 
-                        int n2 = args->back();
+                        int64_t n2 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n2);
 
                         args->pop_back();
                       }
+                      break;
                     case 1:
                       break;
                     case 3:
-                      {
-                        int n1 = args->back();
+                      if (args->size() >= 1) {
+                        int64_t n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
-                        break;
                       }
+                      break;
                     default:
                       {
-                        for (int i = 0; i < numArgs; i++) {
-                          int n1 = args->back();
+                        for (int i = 0; i < numArgs && !args->empty(); i++) {
+                          int64_t n1 = args->back();
                           args->pop_back();
                           interpreterStack->push_back(n1);
                         }
@@ -706,9 +711,9 @@ void Type1FontFileParser::parseCharString(const string& charString,
                 }
               case 33:  // x y setcurrentpoint
                 if (args->size() >= 2) {
-                  int y = args->back();
+                  int64_t y = args->back();
                   args->pop_back();
-                  int x = args->back();
+                  int64_t x = args->back();
                   args->pop_back();
 
                   *curX = x;
@@ -726,7 +731,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
           if (args->size() >= 2) {
             // int wx = args->back();
             args->pop_back();
-            int sbx = args->back();
+            int64_t sbx = args->back();
             args->pop_back();
 
             *curX = sbx;
@@ -739,9 +744,9 @@ void Type1FontFileParser::parseCharString(const string& charString,
           break;
         case 21:  // dx dy rmoveto
           if (args->size() >= 2) {
-            int dy = args->back();
+            int64_t dy = args->back();
             args->pop_back();
-            int dx = args->back();
+            int64_t dx = args->back();
             args->pop_back();
 
             *curX += dx;
@@ -754,7 +759,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
           break;
         case 22:  // dx hmoveto
           if (args->size() >= 1) {
-            int dx = args->back();
+            int64_t dx = args->back();
             args->pop_back();
 
             *curX += dx;
@@ -764,21 +769,21 @@ void Type1FontFileParser::parseCharString(const string& charString,
           break;
         case 30:  // dy1 dx2 dy2 dx3 vhcurveto
           if (args->size() >= 4) {
-            int dx3 = args->back();
+            int64_t dx3 = args->back();
             args->pop_back();
-            int dy2 = args->back();
+            int64_t dy2 = args->back();
             args->pop_back();
-            int dx2 = args->back();
+            int64_t dx2 = args->back();
             args->pop_back();
-            int dy1 = args->back();
+            int64_t dy1 = args->back();
             args->pop_back();
 
-            int x1 = *curX;
-            int y1 = *curY + dy1;
-            int x2 = x1 + dx2;
-            int y2 = y1 + dy2;
-            int x3 = x2 + dx3;
-            int y3 = y2;
+            int64_t x1 = *curX;
+            int64_t y1 = *curY + dy1;
+            int64_t x2 = x1 + dx2;
+            int64_t y2 = y1 + dy2;
+            int64_t x3 = x2 + dx3;
+            int64_t y3 = y2;
 
             *curX = x3;
             *curY = y3;
@@ -790,21 +795,21 @@ void Type1FontFileParser::parseCharString(const string& charString,
           break;
         case 31:  // dx1 dx2 dy2 dy3 hvcurveto
           if (args->size() >= 4) {
-            int dy3 = args->back();
+            int64_t dy3 = args->back();
             args->pop_back();
-            int dy2 = args->back();
+            int64_t dy2 = args->back();
             args->pop_back();
-            int dx2 = args->back();
+            int64_t dx2 = args->back();
             args->pop_back();
-            int dx1 = args->back();
+            int64_t dx1 = args->back();
             args->pop_back();
 
-            int x1 = *curX + dx1;
-            int y1 = *curY;
-            int x2 = x1 + dx2;
-            int y2 = y1 + dy2;
-            int x3 = x2;
-            int y3 = y2 + dy3;
+            int64_t x1 = *curX + dx1;
+            int64_t y1 = *curY;
+            int64_t x2 = x1 + dx2;
+            int64_t y2 = y1 + dy2;
+            int64_t x3 = x2;
+            int64_t y3 = y2 + dy3;
 
             *curX = x3;
             *curY = y3;
@@ -824,16 +829,16 @@ void Type1FontFileParser::parseCharString(const string& charString,
       if (byte <= 246) {
         args->push_back(byte - 139);
       } else if (byte >= 247 && byte <= 250) {
-        unsigned char bbyte = charString[++t] & 0xff;
+        unsigned char bbyte = ++t < charString.size() ? charString[t] : 0;
         args->push_back((byte - 247) * 256 + bbyte + 108);
       } else if (byte >= 251 && byte <= 254) {
-        unsigned char bbyte = charString[++t] & 0xff;
+        unsigned char bbyte = ++t < charString.size() ? charString[t] : 0;
         args->push_back(-(byte - 251) * 256 - bbyte - 108);
       } else if (byte == 255) {
-        unsigned char b1 = charString[++t] & 0xff;
-        unsigned char b2 = charString[++t] & 0xff;
-        unsigned char b3 = charString[++t] & 0xff;
-        unsigned char b4 = charString[++t] & 0xff;
+        unsigned char b1 = ++t < charString.size() ? charString[t] : 0;
+        unsigned char b2 = ++t < charString.size() ? charString[t] : 0;
+        unsigned char b3 = ++t < charString.size() ? charString[t] : 0;
+        unsigned char b4 = ++t < charString.size() ? charString[t] : 0;
         args->push_back(b1 << 24 | b2 << 16 | b3 << 8 | b4);
       }
     }
diff --git a/src/utils/PdfFontInfoParser.h b/src/utils/PdfFontInfoParser.h
index 51644bc..ea12b8a 100755
--- a/src/utils/PdfFontInfoParser.h
+++ b/src/utils/PdfFontInfoParser.h
@@ -112,9 +112,9 @@ class Type1FontFileParser {
   void parseEncryptedPart(Object* streamObj, int length, PdfFontInfo* fontInfo);
 
   void parseCharString(const string& charString,
-    const unordered_map<int, string>& subrs, int* curX, int* curY,
-    int* leftX, int* upperY, int* rightX, int* lowerY, vector<int>* args,
-    vector<int>* interpreterStack) const;
+    const unordered_map<int, string>& subrs, int64_t* curX, int64_t* curY,
+    int64_t* leftX, int64_t* upperY, int64_t* rightX, int64_t* lowerY, vector<int64_t>* args,
+    vector<int64_t>* interpreterStack, int depth = 0) const;
 
   /** TODO(korzen) */
   void decrypt(const char* bytes, int numBytes, int r, int n, string* resultStr) const;
-- 
2.43.0


From 8ba1bb2a4ac52b257e2602e8e03e291533f4f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 22/62] fix: do not store bounding boxes for glyphs without any
 position

---
 src/utils/PdfFontInfoParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 7921d9c..69e1b8c 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -459,6 +459,10 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     vector<int64_t> interpreterStack;
     parseCharString(decryptedCharString, subrsMap, &curX, &curY, &leftX, &upperY, &rightX, &lowerY,
         &args, &interpreterStack);
+    // Ignore the glyph if no position could be interpreted.
+    if (leftX > rightX || upperY > lowerY) {
+      continue;
+    }
     fontInfo->glyphBoundingBoxes[charName] = make_tuple(leftX, upperY, rightX, lowerY);
   }
 }
-- 
2.43.0


From 12d7cc5f3761d2cbad076639d8fa70fabbbab6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 23/62] fix: look up the figures of a page by its page number,
 since broken pages are skipped

---
 src/TextBlocksDetection.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/TextBlocksDetection.cpp b/src/TextBlocksDetection.cpp
index 50e40ce..a2945d0 100755
--- a/src/TextBlocksDetection.cpp
+++ b/src/TextBlocksDetection.cpp
@@ -332,7 +332,15 @@ Trool TextBlocksDetection::startsBlock_sameFigure(const PdfTextLine* line) const
   const PdfTextLine* prevLine = line->prevLine;
 
   // Compute the figure overlapped by the previous and the current line.
-  vector<PdfFigure*>& figures = _doc->pages[p - 1]->figures;
+  // NOTE: The i-th entry of _doc->pages is not necessarily the page with number i + 1, since broken
+  // pages are not contained in _doc->pages.
+  vector<PdfFigure*> figures;
+  for (const auto* page : _doc->pages) {
+    if (page->pageNum == p) {
+      figures = page->figures;
+      break;
+    }
+  }
   PdfFigure* prevLineOverlapsFigure = _utils->computeOverlapsFigure(prevLine, figures);
   PdfFigure* currLineOverlapsFigure = _utils->computeOverlapsFigure(line, figures);
 
-- 
2.43.0


From de6e6a76627de8520c55ec70570e9a0bc2840056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 24/62] fix: do not crash on visualizing a document with broken
 pages

---
 src/PdfDocumentVisualization.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index 0b94730..96391c6 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -72,6 +72,11 @@ PdfDocumentVisualization::PdfDocumentVisualization(const string& pdfFilePath,
   _gfxs.push_back(nullptr);  // Make the vector 1-based.
   for (int i = 1; i <= _pdfDoc->getNumPages(); i++) {
     Page* page = _pdfDoc->getPage(i);
+    // Broken pages have no Gfx (no elements are detected on such pages).
+    if (!page) {
+      _gfxs.push_back(nullptr);
+      continue;
+    }
     Gfx* gfx = page->createGfx(_out, config.hDPI, config.vDPI, 0,
         true, false, -1, -1, -1, -1, true, nullptr, nullptr, nullptr);
     _gfxs.push_back(gfx);
-- 
2.43.0


From 3d42b32376f327ff77f0fac93538b08e9df47863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 25/62] fix: escape font names in JSONL output

---
 src/serializers/JsonlSerializer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/JsonlSerializer.cpp b/src/serializers/JsonlSerializer.cpp
index f5431c3..1faf5bd 100755
--- a/src/serializers/JsonlSerializer.cpp
+++ b/src/serializers/JsonlSerializer.cpp
@@ -135,7 +135,7 @@ void JsonlSerializer::serializeCharacters(const PdfDocument* doc,
               << "\"maxY\": " << c->pos->lowerY << ", "
               << "\"wMode\": " << c->pos->wMode << ", "
               << "\"rotation\": " << c->pos->rotation << ", "
-              << "\"font\": \"" << c->fontName << "\", "
+              << "\"font\": \"" << escapeJson(c->fontName) << "\", "
               << "\"fontSize\": " << c->fontSize << ", "
               << "\"weight\": " << fontInfo->weight << ", "
               << "\"italic\": " << (fontInfo->isItalic ? "true" : "false") << ", "
@@ -224,7 +224,7 @@ void JsonlSerializer::serializeWords(const PdfDocument* doc,
             << "\"minY\": " << word->pos->upperY << ", "
             << "\"maxX\": " << word->pos->rightX << ", "
             << "\"maxY\": " << word->pos->lowerY << ", "
-            << "\"font\": \"" << word->fontName << "\", "
+            << "\"font\": \"" << escapeJson(word->fontName) << "\", "
             << "\"fontSize\": " << word->fontSize << ", "
             << "\"text\": \"" << escapeJson(word->text) << "\", "
             << "\"block\": \"" << block->id << "\", "
@@ -258,7 +258,7 @@ void JsonlSerializer::serializeTextBlocks(const PdfDocument* doc,
         << "\"minY\": " << block->pos->upperY << ", "
         << "\"maxX\": " << block->pos->rightX << ", "
         << "\"maxY\": " << block->pos->lowerY << ", "
-        << "\"font\": \"" << block->fontName << "\", "
+        << "\"font\": \"" << escapeJson(block->fontName) << "\", "
         << "\"fontSize\": " << block->fontSize << ", "
         << "\"text\": \"" << escapeJson(block->text) << "\", "
         << "\"role\": \"" << getSemanticRoleName(block->role) << "\", "
-- 
2.43.0


From d47012fc405f6af0375d70edb2db21fd74e18e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 26/62] fix: do not merge hyphenated words if
 --no-dehyphenation is given

---
 src/pdftotext++.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 90fe394..21a4224 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -665,7 +665,7 @@ int main(int argc, char* argv[]) {
   conf.semanticRolesPrediction.logPageFilter = logPageFilter;
   conf.semanticRolesPrediction.modelsDir = CONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR;
   // Configure words dehyphenation.
-  conf.wordsDehyphenation.disabled = skipWordsDehyphenation;
+  conf.wordsDehyphenation.disabled = skipWordsDehyphenation || noDehyphenation;
   conf.wordsDehyphenation.logLevel = debugWordsDehyphenation ? DEBUG : logLevel;
   conf.wordsDehyphenation.logPageFilter = logPageFilter;
 
-- 
2.43.0


From 188dab7cbe2476247edb77dfc2d879922b741f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 27/62] fix: do not pass wide characters to isupper

---
 src/SemanticRolesPrediction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index 18c6092..a9e1005 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -339,7 +339,7 @@ cppflow::tensor SemanticRolesPrediction::createLayoutInputTensor(const PdfDocume
           // Convert the block text to a wstring, to correctly handle umlauts etc.
           wstring wWordText = stringConverter.from_bytes(word->text);
 
-          if (wWordText.length() > 0 && isupper(wWordText[0])) {
+          if (wWordText.length() > 0 && iswupper(wWordText[0])) {
             numUppercasedWords += 1;
           }
           numWords++;
-- 
2.43.0


From 6fc80cb5665676266be5899162345cb2b70fd6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 28/62] fix: count all non-ASCII characters of a text block,
 independent of their lowest byte

---
 src/SemanticRolesPrediction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index a9e1005..d1f187f 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -286,7 +286,7 @@ cppflow::tensor SemanticRolesPrediction::createLayoutInputTensor(const PdfDocume
           numUppercasedChars += 1;
         }
 
-        if (static_cast<unsigned char>(wBlockText[i]) > 127) {
+        if (wBlockText[i] > 127) {
           numNonAsciiChars += 1;
         }
 
-- 
2.43.0


From 836e699559a519d8c57b9750562f6311cb62cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 29/62] fix: do not lose or duplicate diacritical marks that
 are merged with other marks

---
 src/DiacriticalMarksMerging.cpp | 49 +++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/DiacriticalMarksMerging.cpp b/src/DiacriticalMarksMerging.cpp
index a1ff54c..0f22ba7 100755
--- a/src/DiacriticalMarksMerging.cpp
+++ b/src/DiacriticalMarksMerging.cpp
@@ -10,6 +10,8 @@
 #include <utf8proc.h>
 
 #include <cassert>  // assert
+#include <cstdlib>  // free
+#include <unordered_map>
 #include <vector>
 
 #include "./DiacriticalMarksMerging.h"
@@ -19,6 +21,7 @@
 #include "./utils/PdfElementsUtils.h"
 
 using std::endl;
+using std::unordered_map;
 using std::vector;
 
 using ppp::config::DiacriticalMarksMergingConfig;
@@ -73,6 +76,11 @@ void DiacriticalMarksMerging::process() const {
   for (const auto* page : _doc->pages) {
     int p = page->pageNum;
 
+    // The base characters of the merged diacritic marks.
+    unordered_map<PdfCharacter*, PdfCharacter*> baseChars;
+    // The unicodes of the base characters, followed by the unicodes of their diacritic marks.
+    unordered_map<PdfCharacter*, vector<Unicode>> mergedUnicodes;
+
     for (size_t i = 0; i < page->characters.size(); i++) {
       PdfCharacter* prevChar = i > 0 ? page->characters[i - 1] : nullptr;
       PdfCharacter* currChar = page->characters[i];
@@ -174,14 +182,36 @@ void DiacriticalMarksMerging::process() const {
         _log->debug(p) << BOLD << "Merge diacritic with next character." << OFF << endl;
         base = nextChar;
       }
+
+      // If the base character is itself a diacritic mark that was already merged with a base
+      // character, merge the diacritic mark with the latter.
+      while (baseChars.count(base) > 0) {
+        base = baseChars.at(base);
+      }
+      if (base == mark) {
+        _log->debug(p) << BOLD << "Skipping char (is the base of its base char)." << OFF << endl;
+        continue;
+      }
+
+      // Compute the unicodes of the base character, followed by the diacritic marks merged with it
+      // so far, the given diacritic mark and the marks merged with the given mark so far.
+      vector<Unicode>& unicodesMerged = mergedUnicodes[base];
+      if (unicodesMerged.empty()) {
+        for (const auto& u : base->unicodes) { unicodesMerged.push_back(u); }
+      }
+      unicodesMerged.push_back(unicode);
+      if (mergedUnicodes.count(mark) > 0) {
+        const vector<Unicode>& unicodesMark = mergedUnicodes.at(mark);
+        unicodesMerged.insert(unicodesMerged.end(), unicodesMark.begin() + 1, unicodesMark.end());
+      }
+
+      baseChars[mark] = base;
       mark->isDiacriticMarkOfBaseChar = base;
+      mark->isBaseCharOfDiacriticMark = nullptr;
       base->isBaseCharOfDiacriticMark = mark;
 
-      // Compute the text with the base character and the diacritic mark merged to a single
+      // Compute the text with the base character and the diacritic mark(s) merged to a single
       // character, using the utf8proc library.
-      vector<Unicode> unicodesMerged;
-      for (const auto& u : base->unicodes) { unicodesMerged.push_back(u); }
-      unicodesMerged.push_back(unicode);
 
       vector<uint8_t> bytesMerged;
       char buf[8];
@@ -194,9 +224,16 @@ void DiacriticalMarksMerging::process() const {
 
       uint8_t* output;
       int options = UTF8PROC_STABLE | UTF8PROC_COMPOSE;
-      utf8proc_map(&bytesMerged[0], bytesMerged.size(), &output, (utf8proc_option_t) options);
+      auto outputLength = utf8proc_map(&bytesMerged[0], bytesMerged.size(), &output,
+          (utf8proc_option_t) options);
 
-      base->textWithDiacriticMark = reinterpret_cast<char*>(output);
+      if (outputLength >= 0) {
+        base->textWithDiacriticMark.assign(reinterpret_cast<char*>(output), outputLength);
+        free(output);
+      } else {
+        // The text could not be composed; use the decomposed text.
+        base->textWithDiacriticMark.assign(bytesMerged.begin(), bytesMerged.end());
+      }
 
       // Update the bounding box.
       base->pos->leftX = minimum(base->pos->leftX, mark->pos->leftX);
-- 
2.43.0


From 40320b4babb739c6ccc38ba40360c53d3ad270eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 30/62] fix: do not pass the path of the output file to a shell

---
 src/serializers/Serializer.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 69bd201..6699985 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -6,9 +6,11 @@
  * Modified under the Poppler project - http://poppler.freedesktop.org
  */
 
+#include <filesystem>
 #include <fstream>
 #include <iostream>
 #include <string>
+#include <system_error>
 #include <unordered_set>
 
 #include "./Serializer.h"
@@ -17,6 +19,9 @@
 using std::cerr;
 using std::cout;
 using std::endl;
+using std::error_code;
+using std::filesystem::create_directories;
+using std::filesystem::path;
 using std::ofstream;
 using std::string;
 using std::unordered_set;
@@ -42,15 +47,15 @@ void Serializer::serialize(
   }
 
   // Compute the path to the parent directory of the target file.
-  string parentDirPath = ".";
-  size_t posLastSlash = targetFilePath.find_last_of("/");
-  if (posLastSlash != string::npos) {
-    parentDirPath = targetFilePath.substr(0, posLastSlash);
-  }
+  path parentDirPath = path(targetFilePath).parent_path();
 
   // Try to create all intermediate directories if the parent directory does not exist.
-  if (system(("mkdir -p " + parentDirPath).c_str())) {
-    cerr << "Could not create directory '" << parentDirPath << "'." << endl;
+  error_code error;
+  if (!parentDirPath.empty()) {
+    create_directories(parentDirPath, error);
+  }
+  if (error) {
+    cerr << "Could not create directory '" << parentDirPath.string() << "'." << endl;
     return;
   }
 
-- 
2.43.0


From 8772ec68659df25b4dfbf3bb6a694c05c3c9942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 31/62] fix: initialize the color of text elements and the
 semantic role of text blocks

---
 src/Types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Types.h b/src/Types.h
index d80d64a..467c5dc 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -421,7 +421,7 @@ class PdfTextElement : public PdfElement {
   string fontName;
 
   // The stroking color of this element, in RGB format (an array of three doubles between 0 and 1).
-  double color[3];
+  double color[3] = { 0, 0, 0 };
 
   // The opacity of this element, that is: a double in [0,1], with 0="not visible" and 1="opaque".
   double opacity = 1.0;
@@ -756,7 +756,7 @@ class PdfTextBlock : public PdfTextElement {
   const PdfPageSegment* segment = nullptr;
 
   // The semantic role of this text block.
-  SemanticRole role;
+  SemanticRole role = SemanticRole::PARAGRAPH;
 
   // A boolean flag indicating whether or not the text lines in this text block are centered.
   bool isLinesCentered = false;
-- 
2.43.0


From 3c16e54034a5d12df003f77dfc8acb90d72a5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 32/62] fix: do not predict semantic roles if
 --skip-semantic-roles-prediction is given

---
 src/SemanticRolesPrediction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index d1f187f..f231112 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -130,6 +130,10 @@ void SemanticRolesPrediction::readModel() {
 void SemanticRolesPrediction::predict(const PdfDocument* doc) {
   assert(doc);
 
+  if (_config->disabled) {
+    return;
+  }
+
   if (!_modelOk) {
     readModel();
   }
-- 
2.43.0


From 510f6482ab4133d207d8fd51fbc8f95336e8aa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 33/62] fix: report failures on writing the output file by the
 exit status

---
 src/pdftotext++.cpp            |  5 ++++-
 src/serializers/Serializer.cpp | 15 +++++++++++----
 src/serializers/Serializer.h   |  5 ++++-
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 21a4224..6d5172a 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -711,7 +711,10 @@ int main(int argc, char* argv[]) {
   if (serializer) {
     unordered_set<SemanticRole> rolesSet(roles.begin(), roles.end());
     unordered_set<PdfElementType> typesSet(types.begin(), types.end());
-    serializer->serialize(&doc, rolesSet, typesSet, outputFilePath);
+    bool isSerialized = serializer->serialize(&doc, rolesSet, typesSet, outputFilePath);
+    if (!isSerialized) {
+      return EXIT_FAILURE;
+    }
   }
   auto end = high_resolution_clock::now();
   Timing timingSerializeChars("Serialize", duration_cast<milliseconds>(end - start).count());
diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 6699985..6cf3608 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -35,7 +35,7 @@ using ppp::types::SemanticRole;
 namespace ppp::serialization {
 
 // _________________________________________________________________________________________________
-void Serializer::serialize(
+bool Serializer::serialize(
     const PdfDocument* doc,
     const unordered_set<SemanticRole>& roles,
     const unordered_set<PdfElementType>& types,
@@ -43,7 +43,7 @@ void Serializer::serialize(
   // If the target file path is specified as "-", output the text to stdout.
   if (targetFilePath.size() == 1 && targetFilePath[0] == '-') {
     serializeToStream(doc, roles, types, cout);
-    return;
+    return true;
   }
 
   // Compute the path to the parent directory of the target file.
@@ -56,17 +56,24 @@ void Serializer::serialize(
   }
   if (error) {
     cerr << "Could not create directory '" << parentDirPath.string() << "'." << endl;
-    return;
+    return false;
   }
 
   ofstream outFile(targetFilePath);
   if (!outFile.is_open()) {
     cerr << "Could not open file '" << targetFilePath << "'." << endl;
-    return;
+    return false;
   }
 
   serializeToStream(doc, roles, types, outFile);
   outFile.close();
+
+  if (outFile.fail()) {
+    cerr << "Could not write file '" << targetFilePath << "'." << endl;
+    return false;
+  }
+
+  return true;
 }
 
 }  // namespace ppp::serialization
diff --git a/src/serializers/Serializer.h b/src/serializers/Serializer.h
index f97e5e2..98f867b 100644
--- a/src/serializers/Serializer.h
+++ b/src/serializers/Serializer.h
@@ -48,8 +48,11 @@ class Serializer {
    * @param targetPath
    *   The path to the file to which the text should be written.
    *   NOTE: If specified as "-", the text is written to stdout.
+   *
+   * @return
+   *    True if the elements were written successfully, false otherwise.
    */
-  void serialize(const PdfDocument* doc, const unordered_set<SemanticRole>& roles,
+  bool serialize(const PdfDocument* doc, const unordered_set<SemanticRole>& roles,
       const unordered_set<PdfElementType>& units, const string& targetPath) const;
 
  protected:
-- 
2.43.0


From edcd2d0f5d1a2622b556cc76069280a46ee11c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 34/62] fix: detect the rotation of small text in type-3 fonts

---
 src/PdfParsing.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index c4fcc59..b63e56f 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -268,10 +268,12 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
     m[2] = m2[2];
     m[3] = m2[3];
   }
-  if (larger(fabs(m[0] * m[3]), fabs(m[1] * m[2]))) {
-    ch->pos->rotation = (larger(m[0], 0) || smaller(m[3], 0)) ? 0 : 2;
+  // NOTE: The values are compared exactly, since they can be arbitrarily small: the matrix of a
+  // type-3 font usually contains values like 0.001.
+  if (fabs(m[0] * m[3]) > fabs(m[1] * m[2])) {
+    ch->pos->rotation = (m[0] > 0 || m[3] < 0) ? 0 : 2;
   } else {
-    ch->pos->rotation = (larger(m[2], 0)) ? 1 : 3;
+    ch->pos->rotation = (m[2] > 0) ? 1 : 3;
   }
   // In vertical writing mode, the lines are effectively rotated by 90 degrees.
   if (gfxFont && gfxFont->getWMode()) {
-- 
2.43.0


From 2ffb32f32ce2d619224c80756c3cd2e839d3f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 35/62] fix: compute the extents of graphics that are rotated
 by 90 or 270 degrees

---
 src/PdfParsing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index b63e56f..60a3215 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -793,8 +793,9 @@ void PdfParsing::drawGraphic(GfxState* state) {
   const double* ctm = state->getCTM();
   double leftX = round(ctm[4], _config.coordinatePrecision);  // ctm[4] = translateX
   double upperY = round(ctm[5], _config.coordinatePrecision);  // ctm[5] = translateY
-  double rightX = round(leftX + ctm[0], _config.coordinatePrecision);  // ctm[0] = scaleX
-  double lowerY = round(upperY + ctm[3], _config.coordinatePrecision);  // ctm[3] = scaleY
+  // NOTE: If the graphic is rotated by 90 or 270 degrees, its extent is given by ctm[1] and ctm[2].
+  double rightX = round(leftX + ctm[0] + ctm[2], _config.coordinatePrecision);
+  double lowerY = round(upperY + ctm[1] + ctm[3], _config.coordinatePrecision);
 
   // Ignore the graphic if it lies outside the clip box (since graphics outside the clip box are
   // not visible). Example PDF where a graphic lies outside the clip box: 1001.5159.
-- 
2.43.0


From f5462c455aeda7dc75b1fbf718dd6e679ee2ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 36/62] fix: map the thumbs up and thumbs down symbols to the
 right characters

---
 src/utils/CharMap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/CharMap.h b/src/utils/CharMap.h
index bf6502d..a509a93 100755
--- a/src/utils/CharMap.h
+++ b/src/utils/CharMap.h
@@ -149,10 +149,10 @@ const unordered_map<string, pair<unsigned int, string>> charMap = {
   { "slashbigg", make_pair(0x002F, "\u002F") },
   { "summationdisplay", make_pair(0x2211, "\u2211") },
   { "summationtext", make_pair(0x2211, "\u2211") },
-  { "thumbs_down", make_pair(0x1F44E, "\u1F44E") },
-  { "thumbs_down_alt", make_pair(0x1F44E, "\u1F44E") },
-  { "thumbs_up", make_pair(0x1F44D, "\u1F44D") },
-  { "thumbs_up_alt", make_pair(0x1F44D, "\u1F44D") },
+  { "thumbs_down", make_pair(0x1F44E, "\U0001F44E") },
+  { "thumbs_down_alt", make_pair(0x1F44E, "\U0001F44E") },
+  { "thumbs_up", make_pair(0x1F44D, "\U0001F44D") },
+  { "thumbs_up_alt", make_pair(0x1F44D, "\U0001F44D") },
   { "tildewide", make_pair(0x02DC, "\u02DC") },
   { "tildewider", make_pair(0x02DC, "\u02DC") },
   { "tildewidest", make_pair(0x02DC, "\u02DC") },
-- 
2.43.0


From cea65def73d64e21acec11461f98e7a220df4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 37/62] fix: do not consider a Type 1 font to be italic if its
 italic angle is written in another form than 0 def

---
 src/utils/PdfFontInfoParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 69e1b8c..2879d89 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -12,6 +12,7 @@
 #include <poppler/XRef.h>
 
 #include <cassert>  // assert
+#include <cstdlib>  // std::strtod
 #include <limits>
 #include <memory>  // std::shared_ptr
 #include <regex>
@@ -284,7 +285,7 @@ void Type1FontFileParser::parseAsciiPart(Object* strObj, int length, PdfFontInfo
     // A value != 0 means that the font is an italic font.
     if (!italicAngleFound) {
       if (line.starts_with("/ItalicAngle")) {
-        fontInfo->isItalic |= (line != "/ItalicAngle 0 def");
+        fontInfo->isItalic |= (std::strtod(line.c_str() + 12, nullptr) != 0);
         italicAngleFound = true;
       }
     }
-- 
2.43.0


From aa9a2c6e65ce7a3a2e7d86d198ff774ad56a661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 38/62] fix: extract paths that are filled by the even-odd rule

---
 src/PdfParsing.cpp | 5 +++++
 src/PdfParsing.h   | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 60a3215..f77b97e 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -745,6 +745,11 @@ void PdfParsing::fill(GfxState* state) {
   stroke(state);
 }
 
+// _________________________________________________________________________________________________
+void PdfParsing::eoFill(GfxState* state) {
+  stroke(state);
+}
+
 // _________________________________________________________________________________________________
 void PdfParsing::drawImageMask(GfxState* state, Object* ref, Stream* str, int width, int height,
     bool invert, bool interpolate, bool inlineImg) {
diff --git a/src/PdfParsing.h b/src/PdfParsing.h
index 2f6a0e8..b9bd7ff 100755
--- a/src/PdfParsing.h
+++ b/src/PdfParsing.h
@@ -189,6 +189,15 @@ class PdfParsing : public OutputDev {
    */
   void fill(GfxState* state) override;
 
+  /**
+   * This method handles the event "fill a path, using the even-odd rule" in the same way as the
+   * event "stroke a path".
+   *
+   * @param state
+   *   The current graphics state.
+   */
+  void eoFill(GfxState* state) override;
+
   /**
    * This method handles the event "draw an image mask" by invoking the `drawGraphic(state)` method
    * below. See the comment given for this method for more information.
-- 
2.43.0


From bc3fb94d84295ac99782bcc2dac7843f8bc91201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 39/62] fix: do not mix up subscripts and superscripts of text
 that is rotated by 90 or 180 degrees

---
 src/SubSuperScriptsDetection.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/SubSuperScriptsDetection.cpp b/src/SubSuperScriptsDetection.cpp
index 0d1a1a6..eba62d9 100755
--- a/src/SubSuperScriptsDetection.cpp
+++ b/src/SubSuperScriptsDetection.cpp
@@ -75,14 +75,20 @@ void SubSuperScriptsDetection::process() const {
             _log->debug(p) << " └─ line.base: " << line->base << endl;
             _log->debug(p) << " └─ tolerance base-line: " << _config->baseEqualTolerance << endl;
 
+            // NOTE: If the line is rotated by 90 or 180 degrees, the base lines have larger coordinates
+            // the higher they are.
+            bool isFlipped = line->pos->rotation == 1 || line->pos->rotation == 2;
+            double charBase = isFlipped ? -character->base : character->base;
+            double lineBase = isFlipped ? -line->base : line->base;
+
             if (smaller(character->fontSize, _doc->mostFreqFontSize, _config->fsEqualTolerance)) {
-              if (smaller(character->base, line->base, _config->baseEqualTolerance)) {
+              if (smaller(charBase, lineBase, _config->baseEqualTolerance)) {
                 _log->debug(p) << BOLD << " superscript (char.base < line.base)" << OFF << endl;
                 character->isSuperscript = true;
                 continue;
               }
 
-              if (larger(character->base, line->base, _config->baseEqualTolerance)) {
+              if (larger(charBase, lineBase, _config->baseEqualTolerance)) {
                 _log->debug(p) << BOLD << " subscript (char.base > line.base)" << OFF << endl;
                 character->isSubscript = true;
                 continue;
-- 
2.43.0


From ff316bae9f49d667c7d5a44881faa045e1b7659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 40/62] fix: respect the rotation of a character on choosing
 between its bounding boxes

---
 src/PdfParsing.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index f77b97e..7e94758 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -446,14 +446,24 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
     rightX = maximum(leftX3, rightX3);
     lowerY = maximum(upperY3, lowerY3);
 
-    // Update the bounding box when the alternative bounding box has a larger vertical extent.
+    // Update the bounding box when the alternative bounding box has a larger vertical extent (that
+    // is: a larger extent in x-direction, if the character is rotated by 90 or 270 degrees).
     double tolerance = _config.coordsEqualTolerance;
-    if (smaller(upperY, posUpperY, tolerance) || larger(lowerY, posLowerY, tolerance)) {
+    bool isVertical = ch->pos->rotation == 1 || ch->pos->rotation == 3;
+    bool isLarger = isVertical
+        ? smaller(leftX, posLeftX, tolerance) || larger(rightX, posRightX, tolerance)
+        : smaller(upperY, posUpperY, tolerance) || larger(lowerY, posLowerY, tolerance);
+    if (isLarger) {
       posLeftX = leftX;
       posUpperY = upperY;
       posRightX = rightX;
       posLowerY = lowerY;
-      base = lowerY;
+      switch (ch->pos->rotation) {
+        case 0: base = lowerY; break;
+        case 1: base = leftX; break;
+        case 2: base = upperY; break;
+        case 3: base = rightX; break;
+      }
     }
   }
 
-- 
2.43.0


From 6f929936a7833d7e2cb8e59b7716d3d41bebbfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 41/62] fix: provide the JSONL format, which the documentation
 promises

---
 src/PdfDocumentSerialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PdfDocumentSerialization.h b/src/PdfDocumentSerialization.h
index 3213742..c817197 100644
--- a/src/PdfDocumentSerialization.h
+++ b/src/PdfDocumentSerialization.h
@@ -31,7 +31,7 @@ namespace ppp::serialization {
 const unordered_map<SerializationFormat, Serializer*> SERIALIZERS {
   { SerializationFormat::TXT, new PlainTextSerializer() },
   { SerializationFormat::TXT_EXTENDED, new PlainTextExtendedSerializer() },
-  // { SerializationFormat::JSONL, new JsonlSerializer() }
+  { SerializationFormat::JSONL, new JsonlSerializer(1) }
 };
 
 /**
-- 
2.43.0


From 117061f8b2c830e58b335e3e70c8410afbe9516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 42/62] fix: do not truncate the distance between text lines to
 an integer on computing their hierarchy

---
 src/utils/TextLinesDetectionUtils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/TextLinesDetectionUtils.cpp b/src/utils/TextLinesDetectionUtils.cpp
index af16c98..cba1e95 100755
--- a/src/utils/TextLinesDetectionUtils.cpp
+++ b/src/utils/TextLinesDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // fabs
 #include <stack>
 #include <tuple>
 #include <utility>  // std::pair
@@ -17,6 +18,7 @@
 #include "./TextLinesDetectionUtils.h"
 #include "../Types.h"
 
+using std::fabs;
 using std::make_tuple;
 using std::pair;
 using std::stack;
@@ -68,7 +70,7 @@ void TextLinesDetectionUtils::computeTextLineHierarchy(const PdfPage* page) cons
         bool hasSameRotation = prevLine->pos->rotation == line->pos->rotation;
         bool hasSameWMode = prevLine->pos->wMode == line->pos->wMode;
         if (hasSameRotation && hasSameWMode) {
-          double absLineDistance = abs(computeVerticalGap(prevLine, line));
+          double absLineDistance = fabs(computeVerticalGap(prevLine, line));
           if (larger(absLineDistance, _config->lineHierarchyMaxLineDist,
               _config->coordsEqualTolerance)) {
             lineStack = stack<PdfTextLine*>();
-- 
2.43.0


From 67eee909d66a63102873a82ebb60ca28b7494205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 43/62] fix: do not truncate the offsets between text lines to
 integers on detecting text blocks

---
 src/TextBlocksDetection.cpp            |  4 +++-
 src/utils/TextBlocksDetectionUtils.cpp | 10 ++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/TextBlocksDetection.cpp b/src/TextBlocksDetection.cpp
index a2945d0..ee77920 100755
--- a/src/TextBlocksDetection.cpp
+++ b/src/TextBlocksDetection.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // fabs
 #include <string>
 #include <utility>  // std::pair
 #include <vector>
@@ -22,6 +23,7 @@
 #include "./utils/Trool.h"
 
 using std::endl;
+using std::fabs;
 using std::string;
 using std::vector;
 
@@ -815,7 +817,7 @@ Trool TextBlocksDetection::startsBlock_indent(const PdfTextLine* line) const {
   bool isCurrIndented = between(currLeftMargin, indentTolLow, indentTolHigh);
   bool isPrevMoreIndented = larger(prevLeftMargin, indentTolHigh);
   bool isCurrMoreIndented = larger(currLeftMargin, indentTolHigh);
-  double absLeftXOffset = abs(computeLeftXOffset(prevLine, line));
+  double absLeftXOffset = fabs(computeLeftXOffset(prevLine, line));
   bool hasPrevLineCapacity = _utils->computeHasPrevLineCapacity(line->prevLine, line);
 
   _log->debug(p) << _q << BLUE <<  "Is the line indented?" << OFF << endl;
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index d7482dc..22a1c91 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // fabs
 #include <regex>
 #include <string>
 #include <unordered_set>
@@ -20,6 +21,7 @@
 #include "./TextUtils.h"
 #include "../Types.h"
 
+using std::fabs;
 using std::pair;
 using std::regex_search;
 using std::smatch;
@@ -84,8 +86,8 @@ bool TextBlocksDetectionUtils::computeIsCentered(const PdfTextLine* line1,
 
   // The lines are not centered when the leftX-offset and the rightX-offset between the lines
   // are not equal.
-  double absLeftXOffset = abs(computeLeftXOffset(line1, line2));
-  double absRightXOffset = abs(computeRightXOffset(line1, line2));
+  double absLeftXOffset = fabs(computeLeftXOffset(line1, line2));
+  double absRightXOffset = fabs(computeRightXOffset(line1, line2));
 
   double xOffsetTolerance = _config->getCenteringXOffsetEqualTolerance(line1);
   if (!equal(absLeftXOffset, absRightXOffset, xOffsetTolerance)) {
@@ -140,8 +142,8 @@ bool TextBlocksDetectionUtils::computeIsTextLinesCentered(const PdfTextBlock* bl
     bool isFormula = prevLineContainsFormula || currLineContainsFormula;
 
     // Check if the line has a leftX offset (or rightX offset) larger than the threshold.
-    double absLeftXOffset = abs(computeLeftXOffset(prevLine, currLine));
-    double absRightXOffset = abs(computeRightXOffset(prevLine, currLine));
+    double absLeftXOffset = fabs(computeLeftXOffset(prevLine, currLine));
+    double absRightXOffset = fabs(computeRightXOffset(prevLine, currLine));
     double xOffsetThreshold = _config->getCenteringXOffsetEqualTolerance(currLine);
     bool isLargeLeftXOffset = larger(absLeftXOffset, xOffsetThreshold);
     bool isLargeRightXOffset = larger(absRightXOffset, xOffsetThreshold);
-- 
2.43.0


From fc381581194721395cbeb9facc00e3880d4762e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 44/62] fix: consider as many elements with the largest right
 ends as documented on computing cuts

---
 src/utils/XYCut.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 161dbde..2d90249 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -183,8 +183,10 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
       overlappingElements.push_back(prevElement);
     }
 
-    // Add the element to the queue if its rightX is larger than the smallest rightX in the queue.
-    if (larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX)) {
+    // Add the element to the queue if the queue is not full yet, or if its rightX is larger than the
+    // smallest rightX in the queue.
+    if (elementsLargestRightXQueue.size() < static_cast<size_t>(qSize)
+          || larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX)) {
       elementsLargestRightXQueue.push(element);
     }
   }
-- 
2.43.0


From 9d8af1342011c6f0efdb135821df3085826f4c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 45/62] fix: do not cut through elements that start at the same
 position as an element without width or height

---
 src/utils/XYCut.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 2d90249..6ed7ef9 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -28,8 +28,6 @@ using ppp::types::PdfElement;
 using ppp::utils::comparators::LeftXAscComparator;
 using ppp::utils::comparators::RightXDescComparator;
 using ppp::utils::comparators::UpperYAscComparator;
-using ppp::utils::elements::computeHorizontalGap;
-using ppp::utils::elements::computeVerticalGap;
 using ppp::utils::math::equal;
 using ppp::utils::math::equalOrLarger;
 using ppp::utils::math::larger;
@@ -157,7 +155,9 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
     vector<PdfElement*> overlappingElements;
     for (auto* prevElement : elementsLargestRightXSorted) {
       // Compute the gap width (= the horizontal gap between prevElement and element).
-      double gapWidth = computeHorizontalGap(prevElement, element);
+      // NOTE: computeHorizontalGap() is not applicable here, since it swaps the two elements if their
+      // leftX values are equal.
+      double gapWidth = element->pos->leftX - prevElement->pos->rightX;
       // Compute the x-coordinate of the cut (= the horizontal midpoint of the gap).
       double gapX = prevElement->pos->rightX + ((gapWidth) / 2.0);
 
@@ -261,7 +261,9 @@ bool yCut(const vector<PdfElement*>& elements, double minGapHeight,
     PdfElement* element = sElements[pos];
 
     // Compute the gap height (= the vertical gap between the elementLargestLowerY and element).
-    double gapHeight = computeVerticalGap(elementLargestLowerY, element);
+    // NOTE: computeVerticalGap() is not applicable here, since it swaps the two elements if their
+    // upperY values are equal.
+    double gapHeight = element->pos->upperY - elementLargestLowerY->pos->lowerY;
     // Compute the y-coordinate of the cut (= the vertical midpoint of the gap).
     double gapY = elementLargestLowerY->pos->lowerY + ((gapHeight) / 2.0);
 
-- 
2.43.0


From b5b8841f2c3756efdab0cec91c1a8416a05db8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 46/62] fix: count each character beyond the basic multilingual
 plane once on predicting semantic roles

---
 src/SemanticRolesPrediction.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SemanticRolesPrediction.h b/src/SemanticRolesPrediction.h
index e2a688f..ecc9289 100755
--- a/src/SemanticRolesPrediction.h
+++ b/src/SemanticRolesPrediction.h
@@ -11,7 +11,7 @@
 
 #include <cppflow/cppflow.h>
 
-#include <codecvt>  // std::codecvt_utf8_utf16
+#include <codecvt>  // std::codecvt_utf8
 #include <locale>  // std::wstring_convert
 #include <string>
 #include <unordered_map>
@@ -19,7 +19,7 @@
 #include "./Config.h"
 #include "./Types.h"
 
-using std::codecvt_utf8_utf16;
+using std::codecvt_utf8;
 using std::string;
 using std::unordered_map;
 using std::wstring;
@@ -107,7 +107,7 @@ class SemanticRolesPrediction {
   unordered_map<int, string> _rolesVocab;
 
   // The converter for converting string to wstring.
-  wstring_convert<codecvt_utf8_utf16<wchar_t>> stringConverter;
+  wstring_convert<codecvt_utf8<wchar_t>> stringConverter;
 
   // Whether or not the model was already loaded.
   bool _modelOk = false;
-- 
2.43.0


From 99a8aeb39a86bc2d2180652d84e5bec13b9be329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 47/62] fix: convert the font weights of Poppler to the values
 between 100 and 900

---
 src/utils/PdfFontInfoParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 2879d89..6a9a96b 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -133,7 +133,8 @@ PdfFontInfo* PdfFontInfoParser::parse(
   //     attribute). It can also contain the full name of the font (which is an extended version of
   //     the above font name) which can contain the word "Bold". This is checked in a later step,
   //     on reading the embedded font file.
-  fontInfo->weight = gfxFont->getWeight() > 0 ? gfxFont->getWeight() : fontInfo->weight;
+  // NOTE: Poppler represents the weights 100, 200, ..., 900 by the values 1, 2, ..., 9.
+  fontInfo->weight = gfxFont->getWeight() > 0 ? gfxFont->getWeight() * 100 : fontInfo->weight;
   fontInfo->weight = (fontFlags & fontBold) ? 700 : fontInfo->weight;
   fontInfo->weight = fontNameLower.find("bold") != string::npos ? 700 : fontInfo->weight;
   fontInfo->weight = fontNameLower.find("black") != string::npos ? 800 : fontInfo->weight;
-- 
2.43.0


From 6240d1bd1bd3e53a3be4a5adf398590480552635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 48/62] fix: read the char strings of Type 1 fonts that use the
 procedure name "-|" instead of "RD"

---
 src/utils/PdfFontInfoParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 6a9a96b..64332e5 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -404,7 +404,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   }
 
   string subrs = decrypted.substr(subrsStart, subrsEnd - subrsStart);
-  regex dupRegex("dup\\s(\\d{1,9})\\s(\\d{1,9})\\sRD\\s");
+  regex dupRegex("dup\\s(\\d{1,9})\\s(\\d{1,9})\\s(?:RD|-\\|)\\s");
   auto dupBegin = sregex_iterator(subrs.begin(), subrs.end(), dupRegex);
   auto dupEnd = sregex_iterator();
 
@@ -437,7 +437,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
 
   string charstrings = decrypted.substr(charStringsStart);
 
-  regex words_regex("\\/(\\S{1,127})\\s{1,9}(\\d{1,9})\\sRD\\s");
+  regex words_regex("\\/(\\S{1,127})\\s{1,9}(\\d{1,9})\\s(?:RD|-\\|)\\s");
   auto words_begin = sregex_iterator(charstrings.begin(), charstrings.end(), words_regex);
   auto words_end = sregex_iterator();
 
-- 
2.43.0


From 7f50659692d97820765ff38a6379a5dc2f2a0f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 49/62] fix: read the char strings of Type 1 fonts without
 subroutines

---
 src/utils/PdfFontInfoParser.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 64332e5..be055df 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -387,23 +387,21 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     }
   }
 
-  // Parse the "/Subrs" part.
-  size_t subrsStart = decrypted.find("/Subrs");
-  if (subrsStart == string::npos) {
-    // TODO(korzen): Print warning.
-    return;
-  }
-  subrsStart += 6;
-
+  // Parse the "/Subrs" part. It is missing if the char strings do not use any subroutines.
   // NOTE: The (binary) subroutines can contain arbitrary sequences of characters, in particular the
   // "ND" that ends the array.
-  size_t subrsEnd = decrypted.find("/CharStrings", subrsStart);
-  if (subrsEnd == string::npos) {
-    // TODO(korzen): Print warning.
-    return;
+  string subrs;
+  size_t subrsStart = decrypted.find("/Subrs");
+  if (subrsStart != string::npos) {
+    subrsStart += 6;
+    size_t subrsEnd = decrypted.find("/CharStrings", subrsStart);
+    if (subrsEnd == string::npos) {
+      // TODO(korzen): Print warning.
+      return;
+    }
+    subrs = decrypted.substr(subrsStart, subrsEnd - subrsStart);
   }
 
-  string subrs = decrypted.substr(subrsStart, subrsEnd - subrsStart);
   regex dupRegex("dup\\s(\\d{1,9})\\s(\\d{1,9})\\s(?:RD|-\\|)\\s");
   auto dupBegin = sregex_iterator(subrs.begin(), subrs.end(), dupRegex);
   auto dupEnd = sregex_iterator();
-- 
2.43.0


From 25ced51a851177847422332c9cf1d8ec47600012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 50/62] fix: read the italic angle and the weight of Type 1
 fonts written in other forms

---
 src/utils/PdfFontInfoParser.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index be055df..105a070 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -285,16 +285,23 @@ void Type1FontFileParser::parseAsciiPart(Object* strObj, int length, PdfFontInfo
     // Find the "/ItalicAngle" entry of form: "/ItalicAngle 0 def".
     // A value != 0 means that the font is an italic font.
     if (!italicAngleFound) {
-      if (line.starts_with("/ItalicAngle")) {
-        fontInfo->isItalic |= (std::strtod(line.c_str() + 12, nullptr) != 0);
+      // NOTE: The entry is not necessarily at the start of a line, because lines can also be
+      // separated by carriage returns.
+      size_t prefixPos = line.find("/ItalicAngle");
+      if (prefixPos != string::npos) {
+        fontInfo->isItalic |= (std::strtod(line.c_str() + prefixPos + 12, nullptr) != 0);
         italicAngleFound = true;
       }
     }
 
     if (!weightFound) {
+      // Find the "/Weight" entry of form: "/Weight (Bold)" or "/Weight(Bold)".
       size_t startPos = line.find("/Weight (");
+      if (startPos == string::npos) {
+        startPos = line.find("/Weight(");
+      }
       if (startPos != string::npos) {
-        startPos += 9;
+        startPos = line.find("(", startPos) + 1;
         size_t endPos = line.find(")", startPos);
         if (endPos != string::npos) {
           string weight = line.substr(startPos, endPos - startPos);
-- 
2.43.0


From 8d8d8390829b30eca0e7f52abc23aa1f788e4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 51/62] fix: search item labels only at the beginning of a text

Searching the whole text with std::regex overflows the stack when a text line
starts with tens of thousands of digits (std::regex matches recursively).
---
 src/Config.h                           | 3 +++
 src/utils/TextBlocksDetectionUtils.cpp | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Config.h b/src/Config.h
index 1a89ddb..63912bd 100644
--- a/src/Config.h
+++ b/src/Config.h
@@ -695,6 +695,9 @@ struct TextBlocksDetectionConfig : BaseConfig {
   // An alphabet of characters which we consider to be a valid part of a superscripted item label.
   const char* superItemLabelAlphabet = "*∗abcdefghijklmnopqrstuvwxyz01234567890()";
 
+  // The maximum number of bytes of a text line's text in which an item label is searched.
+  unsigned int maxItemLabelLength = 256;
+
   // The regular expressions we use to detect enumeration item labels.
   vector<regex> itemLabelRegexes = {
     // A regex to find item labels of form "• ", or "- ", or "+ ", etc.
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 22a1c91..5f278da 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -610,10 +610,13 @@ bool TextBlocksDetectionUtils::computeIsPrefixedByItemLabel(const PdfTextLine* l
   }
 
   // The line is prefixed by an enumeration item label if it matches one of our regexes we defined
-  // for identifying item labels. The matching parts must not be superscripted.
+  // for identifying item labels. The matching parts must not be superscripted. NOTE: Item labels are
+  // short, so consider only the beginning of the text. Searching very long texts (for example, a
+  // text consisting of tens of thousands of digits) can overflow the stack.
+  string prefix = line->text.substr(0, _config->maxItemLabelLength);
   smatch m;
   for (const auto& regex : _config->itemLabelRegexes) {
-    if (regex_search(line->text, m, regex)) {
+    if (regex_search(prefix, m, regex)) {
       return true;
     }
   }
-- 
2.43.0


From 43e653881c65ae3e0583f646d8e85cc84bad38d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 52/62] fix: initialize the font matrix of fonts without an
 embedded font matrix

Poppler sets the font matrix only for type-3 fonts, so uninitialized values were
copied for all other fonts. They were used when an embedded font file has no
/FontMatrix entry.
---
 src/Types.h                     |  2 +-
 src/utils/PdfFontInfoParser.cpp | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/Types.h b/src/Types.h
index 467c5dc..1561f15 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -206,7 +206,7 @@ class PdfFontInfo {
   bool isType3 = false;
 
   /** The font matrix. */
-  double fontMatrix[6];
+  double fontMatrix[6] = { 0.001, 0, 0, 0.001, 0, 0 };
 
   /**
    * A mapping of character names to bounding boxes (each given by its leftX, upperY, rightX,
diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 105a070..062e447 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -141,13 +141,17 @@ PdfFontInfo* PdfFontInfoParser::parse(
 
   // Set the font matrix. If the font is embedded, this value will be overwritten by the font
   // matrix stored in the embedded font file.
-  const double* gfxFontMatrix = gfxFont->getFontMatrix();
-  fontInfo->fontMatrix[0] = gfxFontMatrix[0];
-  fontInfo->fontMatrix[1] = gfxFontMatrix[1];
-  fontInfo->fontMatrix[2] = gfxFontMatrix[2];
-  fontInfo->fontMatrix[3] = gfxFontMatrix[3];
-  fontInfo->fontMatrix[4] = gfxFontMatrix[4];
-  fontInfo->fontMatrix[5] = gfxFontMatrix[5];
+  // NOTE: Poppler provides a font matrix only for type-3 fonts; the values are uninitialized for
+  // all other fonts.
+  if (fontInfo->isType3) {
+    const double* gfxFontMatrix = gfxFont->getFontMatrix();
+    fontInfo->fontMatrix[0] = gfxFontMatrix[0];
+    fontInfo->fontMatrix[1] = gfxFontMatrix[1];
+    fontInfo->fontMatrix[2] = gfxFontMatrix[2];
+    fontInfo->fontMatrix[3] = gfxFontMatrix[3];
+    fontInfo->fontMatrix[4] = gfxFontMatrix[4];
+    fontInfo->fontMatrix[5] = gfxFontMatrix[5];
+  }
 
   if (parseEmbeddedFontFiles) {
     // Check if the font is embedded. If so, read the embedded font file. It can contains further
-- 
2.43.0


From 17f34172fff6afb2dca573af45da34ba7078f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:12 +0000
Subject: [PATCH 53/62] fix: respect the rotation and the origin of pages on
 visualizing elements

The positions of the annotations were given relative to the lower left of the
displayed page, but they must be given in the user space of the page.
---
 src/PdfDocumentVisualization.cpp | 53 ++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index 96391c6..ef52b15 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -49,12 +49,56 @@ using ppp::types::PdfTextLine;
 using ppp::types::PdfWord;
 using ppp::types::SemanticRole;
 using ppp::utils::elements::getSemanticRoleName;
+using ppp::utils::math::maximum;
+using ppp::utils::math::minimum;
 using ppp::utils::math::smaller;
 
 // =================================================================================================
 
 namespace ppp::visualization {
 
+namespace {
+
+/**
+ * This method transforms the given coordinates, which are relative to the lower left of the page as
+ * it is displayed, to user space coordinates (in which the positions of annotations must be given).
+ * This takes into account the rotation of the page and the origin of its media box.
+ */
+void toUserSpace(const Page* page, double* x, double* y) {
+  const PDFRectangle* box = page->getMediaBox();
+  double dx = *x;
+  double dy = page->getMediaHeight() - *y;  // relative to the upper left.
+  switch (page->getRotate()) {
+    case 90:
+      *x = box->x1 + dy;
+      *y = box->y1 + dx;
+      break;
+    case 180:
+      *x = box->x2 - dx;
+      *y = box->y1 + dy;
+      break;
+    case 270:
+      *x = box->x2 - dy;
+      *y = box->y2 - dx;
+      break;
+    default:
+      *x = box->x1 + dx;
+      *y = box->y2 - dy;
+      break;
+  }
+}
+
+/**
+ * This method does the same as the method above, for the given bounding box.
+ */
+PDFRectangle toUserSpace(const Page* page, double x1, double y1, double x2, double y2) {
+  toUserSpace(page, &x1, &y1);
+  toUserSpace(page, &x2, &y2);
+  return PDFRectangle(minimum(x1, x2), minimum(y1, y2), maximum(x1, x2), maximum(y1, y2));
+}
+
+}  // namespace
+
 // _________________________________________________________________________________________________
 PdfDocumentVisualization::PdfDocumentVisualization(const string& pdfFilePath,
     const PdfDocumentVisualizationConfig& config) {
@@ -363,7 +407,7 @@ void PdfDocumentVisualization::drawPageSegmentBoundingBoxes(
       // visible in the visualization. So ensure a minimal width/height of 1.
       if (smaller(fabs(leftX - rightX), 1)) { rightX += 1; }
       if (smaller(fabs(upperY - lowerY), 1)) { lowerY += 1; }
-      PDFRectangle rect(leftX, upperY, rightX, lowerY);
+      PDFRectangle rect = toUserSpace(pdfPage, leftX, upperY, rightX, lowerY);
 
       // Create the bounding box.
       AnnotGeometry* a = new AnnotGeometry(_pdfDoc.get(), &rect, Annot::AnnotSubtype::typeSquare);
@@ -396,7 +440,7 @@ void PdfDocumentVisualization::drawBoundingBox(const PdfElement* element, const
   // visible in the visualization. So ensure a minimal width/height of 1.
   if (smaller(fabs(leftX - rightX), 1)) { rightX += 1; }
   if (smaller(fabs(upperY - lowerY), 1)) { lowerY += 1; }
-  PDFRectangle rect(leftX, upperY, rightX, lowerY);
+  PDFRectangle rect = toUserSpace(pdfPage, leftX, upperY, rightX, lowerY);
 
   // Create the bounding box.
   AnnotGeometry* annot = new AnnotGeometry(_pdfDoc.get(), &rect, Annot::AnnotSubtype::typeSquare);
@@ -422,6 +466,7 @@ void PdfDocumentVisualization::drawTextBlockSemanticRoles(const vector<PdfTextBl
     // the page.
     double leftX = block->pos->leftX;
     double lowerY = pdfPage->getMediaHeight() - block->pos->upperY;
+    toUserSpace(pdfPage, &leftX, &lowerY);
     PDFRectangle rect(leftX, lowerY, leftX + 100, lowerY + 7);
 
     // Define the font appearance of the semantic role.
@@ -470,6 +515,8 @@ void PdfDocumentVisualization::drawReadingOrder(const vector<PdfTextBlock*>& blo
     double currMaxY = pdfPage->getMediaHeight() - currBlock->pos->upperY;
     double currMidX = currBlock->pos->leftX + ((currMaxX - currMinX) / 2.0);
     double currMidY = currMinY + ((currMaxY - currMinY) / 2.0);
+    toUserSpace(pdfPage, &prevMidX, &prevMidY);
+    toUserSpace(pdfPage, &currMidX, &currMidY);
 
     // Define the position of the reading order line.
     PDFRectangle lineRect(prevMidX, prevMidY, currMidX, currMidY);
@@ -564,6 +611,8 @@ void PdfDocumentVisualization::drawCuts(const vector<Cut*>& cuts, const ColorSch
     double y1 = pdfPage->getMediaHeight() - cut->y1;  // make it relative to the lower left.
     double x2 = cut->x2;
     double y2 = pdfPage->getMediaHeight() - cut->y2;  // make it relative to the lower left.
+    toUserSpace(pdfPage, &x1, &y1);
+    toUserSpace(pdfPage, &x2, &y2);
 
     // ==========
     // Draw a line representing the cut.
-- 
2.43.0


From 4cf4b78fa8e47b7adc9d0ca834095cafd0cbaf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:48 +0000
Subject: [PATCH 54/62] fix: report when the visualization could not be written

---
 src/PdfDocumentVisualization.cpp | 5 +++--
 src/PdfDocumentVisualization.h   | 5 ++++-
 src/pdftotext++.cpp              | 5 ++++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index ef52b15..0d86907 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -8,6 +8,7 @@
 
 #include <goo/GooString.h>
 #include <poppler/Annot.h>
+#include <poppler/ErrorCodes.h>
 #include <poppler/PDFDoc.h>
 #include <poppler/PDFDocEncoding.h>
 #include <poppler/PDFDocFactory.h>
@@ -300,9 +301,9 @@ void PdfDocumentVisualization::visualizeReadingOrderCuts(const vector<Cut*>& cut
 }
 
 // _________________________________________________________________________________________________
-void PdfDocumentVisualization::save(const string& targetPath) const {
+bool PdfDocumentVisualization::save(const string& targetPath) const {
   GooString gooTargetPath(targetPath);
-  _pdfDoc->saveAs(gooTargetPath);
+  return _pdfDoc->saveAs(gooTargetPath) == errNone;
 }
 
 // =================================================================================================
diff --git a/src/PdfDocumentVisualization.h b/src/PdfDocumentVisualization.h
index b9682ce..dfec3d8 100755
--- a/src/PdfDocumentVisualization.h
+++ b/src/PdfDocumentVisualization.h
@@ -251,8 +251,11 @@ class PdfDocumentVisualization {
    *
    * @param targetPath
    *    The path to the file to which the visualization should be written.
+   *
+   * @return
+   *    True if the visualization was written successfully, false otherwise.
    */
-  void save(const string& targetPath) const;
+  bool save(const string& targetPath) const;
 
  private:
   /**
diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 6d5172a..e2124c7 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -758,7 +758,10 @@ int main(int argc, char* argv[]) {
     if (visualizeReadingOrderCuts) {
       pdv.visualizeReadingOrderCuts(doc, ppp::visualization::color_schemes::blue);
     }
-    pdv.save(visualizeFilePathStr);
+    if (!pdv.save(visualizeFilePathStr)) {
+      cerr << "Could not write file '" << visualizeFilePathStr << "'." << endl;
+      return EXIT_FAILURE;
+    }
     auto end = high_resolution_clock::now();
     Timing timingVisualizing("Visualize", duration_cast<milliseconds>(end - start).count());
     timings.push_back(timingVisualizing);
-- 
2.43.0


From 9540accff6482cb8602998b00a92414fbd0e6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 55/62] fix: report when the text could not be written to
 stdout

---
 src/serializers/Serializer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 6cf3608..bed47f8 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -43,6 +43,13 @@ bool Serializer::serialize(
   // If the target file path is specified as "-", output the text to stdout.
   if (targetFilePath.size() == 1 && targetFilePath[0] == '-') {
     serializeToStream(doc, roles, types, cout);
+    cout.flush();
+
+    if (cout.fail()) {
+      cerr << "Could not write to stdout." << endl;
+      return false;
+    }
+
     return true;
   }
 
-- 
2.43.0


From d5c8d24d49817901f5c91298a4c52dd504afdb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:11 +0000
Subject: [PATCH 56/62] fix: report when the visualization could only be
 written partly

---
 src/PdfDocumentVisualization.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index 0d86907..76eeb5f 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -12,8 +12,10 @@
 #include <poppler/PDFDoc.h>
 #include <poppler/PDFDocEncoding.h>
 #include <poppler/PDFDocFactory.h>
+#include <poppler/Stream.h>
 
 #include <cmath>  // fabs
+#include <cstdio>  // fopen, ferror, fclose
 #include <memory>  // std::unique_ptr
 #include <string>
 #include <utility>  // std::move
@@ -302,8 +304,18 @@ void PdfDocumentVisualization::visualizeReadingOrderCuts(const vector<Cut*>& cut
 
 // _________________________________________________________________________________________________
 bool PdfDocumentVisualization::save(const string& targetPath) const {
-  GooString gooTargetPath(targetPath);
-  return _pdfDoc->saveAs(gooTargetPath) == errNone;
+  FILE* file = fopen(targetPath.c_str(), "wb");
+  if (!file) {
+    return false;
+  }
+
+  FileOutStream stream(file, 0);
+  bool isSaved = _pdfDoc->saveAs(&stream) == errNone;
+
+  // Poppler does not report write errors (for example, because the disk is full).
+  bool isWritten = ferror(file) == 0;
+  bool isClosed = fclose(file) == 0;
+  return isSaved && isWritten && isClosed;
 }
 
 // =================================================================================================
-- 
2.43.0


From 546694f58e10bb1e7923b37e4d6a0151f4ff9cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:11 +0000
Subject: [PATCH 57/62] fix: print running times if the locale of the
 environment is not installed

---
 src/pdftotext++.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index e2124c7..27d4eb2 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -13,6 +13,7 @@
 #include <iomanip>   // std::setw, std::setprecision
 #include <iostream>  // std::cout
 #include <locale>    // imbue
+#include <stdexcept>  // std::runtime_error
 #include <string>
 #include <unordered_set>
 #include <vector>
@@ -35,6 +36,7 @@ using std::exception;
 using std::fixed;
 using std::invalid_argument;
 using std::locale;
+using std::runtime_error;
 using std::setprecision;
 using std::setw;
 using std::string;
@@ -770,7 +772,11 @@ int main(int argc, char* argv[]) {
   // Print the running times needed by the different pipeline steps, if requested by the user.
   if (printRunningTimes) {
     // Print the values with thousands separator.
-    cout.imbue(locale(""));
+    try {
+      cout.imbue(locale(""));
+    } catch (const runtime_error& re) {
+      // The locale specified by the environment is not installed; print without separators.
+    }
     // Print the values with a precision of one decimal point.
     cout << fixed;
     cout << setprecision(1);
-- 
2.43.0


From fa56e2bd25947319eb54bc3e01506be0159ff785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:41 +0000
Subject: [PATCH 58/62] fix: reject an empty path to the PDF file

---
 src/pdftotext++.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 27d4eb2..946af83 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -600,6 +600,12 @@ int main(int argc, char* argv[]) {
     return EXIT_SUCCESS;
   }
 
+  // Abort if the specified path is empty (for example, because of an unset shell variable).
+  if (pdfFilePath.empty()) {
+    cerr << "The path to the PDF file must not be empty." << endl;
+    return EXIT_FAILURE;
+  }
+
   // Disable the log output of Tensorflow.
   char env[] = "TF_CPP_MIN_LOG_LEVEL=3";
   putenv(env);
-- 
2.43.0


From 8aaa7b851f33b0cc6cadb42695d00818d2f650fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 59/62] fix: report when the model for predicting semantic
 roles could not be loaded

---
 src/pdftotext++.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 946af83..4d8e81d 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -689,6 +689,10 @@ int main(int argc, char* argv[]) {
   } catch (const invalid_argument& ia) {
     cerr << "An error occurred: " << ia.what() << '\n';
     return 3;
+  } catch (const runtime_error& re) {
+    // Thrown by cppflow if the model can not be loaded.
+    cerr << "An error occurred: " << re.what() << '\n';
+    return 3;
   }
 
   // Abort if the exit code of pdftotext++ is > 0 (meaning that some error occurred).
-- 
2.43.0


From ce8fd6da6bebf61482d5fbb218f1747d1b0c2b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:11 +0000
Subject: [PATCH 60/62] fix: merge diacritical marks in turned text along the
 direction of the text

---
 src/DiacriticalMarksMerging.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/DiacriticalMarksMerging.cpp b/src/DiacriticalMarksMerging.cpp
index 0f22ba7..d571f9f 100755
--- a/src/DiacriticalMarksMerging.cpp
+++ b/src/DiacriticalMarksMerging.cpp
@@ -28,6 +28,7 @@ using ppp::config::DiacriticalMarksMergingConfig;
 using ppp::types::PdfCharacter;
 using ppp::types::PdfDocument;
 using ppp::utils::elements::computeMaxXOverlapRatio;
+using ppp::utils::elements::computeMaxYOverlapRatio;
 using ppp::utils::log::BOLD;
 using ppp::utils::log::OFF;
 using ppp::utils::log::Logger;
@@ -131,6 +132,10 @@ void DiacriticalMarksMerging::process() const {
         continue;
       }
 
+      // If the character is rotated by 90 or 270 degrees, the text runs along the y-axis, so that
+      // the overlap must be computed with respect to the y-axis.
+      bool vertical = currChar->pos->rotation == 1 || currChar->pos->rotation == 3;
+
       // Compute the horizontal overlap with the previous character.
       double prevXOverlapRatio = 0;
       _log->debug(p) << "---------------------------------------" << endl;
@@ -141,7 +146,8 @@ void DiacriticalMarksMerging::process() const {
         _log->debug(p) << " • prevChar.rightX: " << prevChar->pos->rightX << endl;
         _log->debug(p) << " • prevChar.lowerY: " << prevChar->pos->lowerY << endl;
 
-        prevXOverlapRatio = computeMaxXOverlapRatio(prevChar, currChar);
+        prevXOverlapRatio = vertical ? computeMaxYOverlapRatio(prevChar, currChar)
+            : computeMaxXOverlapRatio(prevChar, currChar);
       } else {
         _log->debug(p) << BOLD << "prevChar: -" << OFF << endl;
       }
@@ -156,7 +162,8 @@ void DiacriticalMarksMerging::process() const {
         _log->debug(p) << " • nextChar.rightX: " << nextChar->pos->rightX << endl;
         _log->debug(p) << " • nextChar.lowerY: " << nextChar->pos->lowerY << endl;
 
-        nextXOverlapRatio = computeMaxXOverlapRatio(currChar, nextChar);
+        nextXOverlapRatio = vertical ? computeMaxYOverlapRatio(currChar, nextChar)
+            : computeMaxXOverlapRatio(currChar, nextChar);
       } else {
         _log->debug(p) << BOLD << "nextChar: -" << OFF << endl;
       }
-- 
2.43.0


From cf3006e68fc7916048a6392749392cfa21f1f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 61/62] fix: compute the extents of graphics that are skewed or
 rotated by any angle

---
 src/PdfParsing.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 7e94758..e69a9d0 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -821,6 +821,17 @@ void PdfParsing::drawGraphic(GfxState* state) {
     return;
   }
 
+  // Extend the bounding box to all four corners of the graphic, since a graphic that is rotated by
+  // another angle (or skewed) is not bounded by two opposite corners.
+  double minX = ctm[4] + minimum(0.0, ctm[0]) + minimum(0.0, ctm[2]);
+  double minY = ctm[5] + minimum(0.0, ctm[1]) + minimum(0.0, ctm[3]);
+  double maxX = ctm[4] + maximum(0.0, ctm[0]) + maximum(0.0, ctm[2]);
+  double maxY = ctm[5] + maximum(0.0, ctm[1]) + maximum(0.0, ctm[3]);
+  leftX = round(minX, _config.coordinatePrecision);
+  upperY = round(minY, _config.coordinatePrecision);
+  rightX = round(maxX, _config.coordinatePrecision);
+  lowerY = round(maxY, _config.coordinatePrecision);
+
   // Store the information about the graphic in form of a `PdfGraphic`.
   PdfGraphic* graphic = new PdfGraphic();
   graphic->id = createRandomString(_config.idLength, "graphic-");
-- 
2.43.0


From 9ad080cf632e9db368bc18675e923cc02e2c91ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:02 +0000
Subject: [PATCH 62/62] fix: compute the widths of characters of CID fonts
 whose codes are not their CIDs

---
 src/PdfParsing.cpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index e69a9d0..a230a66 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -327,25 +327,20 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
 
   // Compute the text rendering matrix of the next char.
   auto gfxCidFont = dynamic_pointer_cast<GfxCIDFont>(state->getFont());
-  double width = 0;
+  double nextTm[6] = { tm0, tm1, tm2, tm3, x, y };
   if (gfx8BitFont) {
-    width = gfx8BitFont->getWidth(c);
+    double width = gfx8BitFont->getWidth(c) * fontSize * horizScaling;
+    nextTm[4] += width * tm0;
+    nextTm[5] += width * tm1;
   } else if (gfxCidFont) {
-    if (nBytes > 0) {
-      char* bytes = new char[nBytes];
-      for (int k = 0; k < nBytes; k++) {
-        bytes[k] = (c >> (8 * (nBytes - k - 1))) & 0xFF;
-      }
-      width = gfxCidFont->getWidth(bytes, nBytes);
-      delete[] bytes;
-    }
+    // Use the displacement, because 'c' is the CID of the glyph (and not the character code that is
+    // needed for looking up the width of the glyph). It also comprises the character spacing.
+    double charSpace = state->getCharSpace() * horizScaling;
+    nextTm[4] += dx - charSpace * tm0;
+    nextTm[5] += dy - charSpace * tm1;
   }
-
-  double td[6] = { 1, 0, 0, 1, width * fontSize * horizScaling, 0 };
-  double tdXtm[6];
-  concat(td, tm, tdXtm);
   double nextTrm[6];
-  concat(tdXtm, ctm, nextTrm);
+  concat(nextTm, ctm, nextTrm);
 
   double x0 = trm[4];
   double y0 = trm[5];
-- 
2.43.0

