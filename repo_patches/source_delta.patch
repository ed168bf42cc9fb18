From 5395a358762fbf861034b51df2c05b2348cc5470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 001/125] fix: full() and empty() of ArrayBlockingQueue read
 the element count without a data race

---
 src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp b/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
index db186db..4d7c3db 100644
--- a/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
+++ b/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
@@ -29,6 +29,7 @@
 #include <Balau/Container/BlockingQueue.hpp>
 #include <Balau/Type/StdTypes.hpp>
 
+#include <atomic>
 #include <condition_variable>
 
 namespace Balau::Container {
@@ -233,7 +234,7 @@ template <typename T> class ArrayBlockingQueue : public BlockingQueue<T> {
 	}
 
 	private: std::vector<T> elements;
-	private: size_t count;
+	private: std::atomic<size_t> count;
 	private: size_t head;
 	private: size_t tail;
 	private: std::mutex mutex;
-- 
2.43.0


From 2ded03b8674d8ce69a15f1f91b0a6acbf589ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 002/125] fix: initialise the executed flag of
 SingleTimeExecutor

---
 src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
index 2db6545..06d3e75 100644
--- a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
+++ b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
@@ -46,7 +46,8 @@ class SingleTimeExecutor {
 	///
 	public: explicit SingleTimeExecutor(std::function<void ()> code_)
 		: code(std::move(code_))
-		, destructorCode() {}
+		, destructorCode()
+		, executed(false) {}
 
 	///
 	/// Create a single time executor with a code block and a destructor code block.
@@ -57,7 +58,8 @@ class SingleTimeExecutor {
 	///
 	public: SingleTimeExecutor(std::function<void ()> code_, std::function<void ()> destructorCode_)
 		: code(std::move(code_))
-		, destructorCode(std::move(destructorCode_)) {}
+		, destructorCode(std::move(destructorCode_))
+		, executed(false) {}
 
 	///
 	/// Destroy the single time executor.
-- 
2.43.0


From 59205ec9370c2ce0316c9b3eaf17c15b885773ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 003/125] fix: trie node begin() and end() delimit all the
 children, also when there are none

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index bebd49f..e26f713 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -753,28 +753,28 @@ template <typename T> class ObjectTrieNode {
 	/// Get a depth iterator positioned at the beginning of the trie.
 	///
 	public: ObjectTrieNode<T> * begin() {
-		return &children[0];
+		return children.data();
 	}
 
 	///
 	/// Get a const depth iterator positioned at the beginning of the trie.
 	///
 	public: const ObjectTrieNode<T> * begin() const {
-		return &children[0];
+		return children.data();
 	}
 
 	///
 	/// Get an iterator positioned at the end of the vector of children.
 	///
 	public: ObjectTrieNode<T> * end() {
-		return &children.back();
+		return children.data() + children.size();
 	}
 
 	///
 	/// Get a const iterator positioned at the end of the vector of children.
 	///
 	public: const ObjectTrieNode<T> * end() const {
-		return &children.back();
+		return children.data() + children.size();
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From 2b2f63ce7db333d8221a68c1f1d903ad8ce98573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 004/125] fix: trie cascade applies the supplied copy or move
 function at every level

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index e26f713..fe42483 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -813,16 +813,16 @@ template <typename T> class ObjectTrieNode {
 	}
 
 	// Used in the public cascade copy method.
-	private: void cascadeChildren(const ObjectTrieNode<T> & toCascade) {
+	private: template <typename U> void cascadeChildren(const ObjectTrieNode<T> & toCascade, U copyFunction) {
 		for (size_t m = 0; m < toCascade.children.size(); m++) {
 			const ObjectTrieNode<T> & childToCascade = toCascade.children[m];
 			ObjectTrieNode<T> * selfChild = find(childToCascade.value);
 
 			if (selfChild) {
-				selfChild->value = childToCascade.value;
-				selfChild->cascadeChildren(childToCascade);
+				selfChild->value = copyFunction(childToCascade.value);
+				selfChild->cascadeChildren(childToCascade, copyFunction);
 			} else {
-				addAndReturnChild(childToCascade.value).cascadeChildren(childToCascade);
+				addAndReturnChild(copyFunction(childToCascade.value)).cascadeChildren(childToCascade, copyFunction);
 			}
 		}
 	}
@@ -835,9 +835,9 @@ template <typename T> class ObjectTrieNode {
 
 			if (selfChild) {
 				selfChild->value = moveFunction(childToCascade.value);
-				selfChild->cascadeChildren(childToCascade);
+				selfChild->cascadeChildren(childToCascade, moveFunction);
 			} else {
-				addAndReturnChild(moveFunction(childToCascade.value)).cascadeChildren(childToCascade);
+				addAndReturnChild(moveFunction(childToCascade.value)).cascadeChildren(childToCascade, moveFunction);
 			}
 		}
 	}
@@ -2298,7 +2298,7 @@ template <typename T> class ObjectTrie {
 		}
 
 		trieRoot.value = copyFunction(toCascade.trieRoot.value);
-		trieRoot.cascadeChildren(toCascade.trieRoot);
+		trieRoot.cascadeChildren(toCascade.trieRoot, copyFunction);
 	}
 
 	///
-- 
2.43.0


From c75054b4df8357fdf1ed433205d4000ea7a3ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 005/125] fix: the scanner rejects invalid UTF-8 text instead
 of reading beyond it

---
 src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp | 12 ++++++++----
 src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp   |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
index 1ad720e..8ccf1e5 100644
--- a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
+++ b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
@@ -97,9 +97,9 @@ template <typename TokenT> class AbstractScanner {
 		if (currentEndOffset == (int) text.length()) {
 			currentChar = std::char_traits<char32_t>::eof();
 		} else {
-			currentChar = Character::getNextUtf8(text, currentEndOffset);
+			currentChar = Character::getNextUtf8Safe(text, currentEndOffset);
 
-			if (currentChar < 0) {
+			if ((int32_t) currentChar < 0) {
 				ThrowBalauException(
 					  Exception::SyntaxErrorException
 					, "Invalid UTF-8 text found during parsing of string literal", calculateCurrentCodeSpan()
@@ -118,9 +118,9 @@ template <typename TokenT> class AbstractScanner {
 		if (currentEndOffset == (int) text.length()) {
 			currentChar = std::char_traits<char32_t>::eof();
 		} else {
-			currentChar = Character::getNextUtf8(text, currentEndOffset);
+			currentChar = Character::getNextUtf8Safe(text, currentEndOffset);
 
-			if (currentChar < 0) {
+			if ((int32_t) currentChar < 0) {
 				container.push_back(errorReport(calculateCurrentCodeSpan()));
 				return false;
 			}
@@ -245,6 +245,10 @@ template <typename TokenT> class AbstractScanner {
 	}
 
 	protected: CodeSpan calculateCurrentCodeSpan() {
+		if (tokens.empty()) {
+			return CodeSpan(1, 1, 1, 1);
+		}
+
 		return RandomAccessScannedTokens<TokenT>::determineCodeSpan(
 			text, tokens, startOffsets, (unsigned int) tokens.size() - 1
 		);
diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index 9ddb8c0..1bb9404 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -244,11 +244,11 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 				, lineLengthCache
 			);
 
-			startPosition = endPosition;
-
 			if (index == thisIndex) {
 				return CodeSpan(startPosition, endPosition);
 			}
+
+			startPosition = endPosition;
 		}
 
 		determineNewEnd(
-- 
2.43.0


From 74783c50362f5713ce2600b214067e99e4e76516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 006/125] fix: token views of short scanned texts remain valid
 when the text is moved

---
 src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
index 8ccf1e5..f505354 100644
--- a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
+++ b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
@@ -31,6 +31,7 @@
 #include <Balau/Resource/ByteReadResource.hpp>
 #include <Balau/Util/Streams.hpp>
 
+#include <algorithm>
 #include <stack>
 
 namespace Balau::Lang {
@@ -61,6 +62,10 @@ template <typename TokenT> class AbstractScanner {
 	/// Scan the input and return a ScannedTokens data structure.
 	///
 	public: ScannedTokens<TokenT> scan() {
+		// The token views of the consumers must remain valid when the text is
+		// moved, thus the text must not reside in the string's internal buffer.
+		text.reserve(std::max(text.length(), 2 * sizeof(std::string)));
+
 		currentStartOffset = 0U;
 		currentEndOffset = 0U;
 		TokenT token = getNextToken();
-- 
2.43.0


From 62a9d574f07fe0bd9f8053d129918d84a78a59a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 007/125] fix: property comments may start with an exclamation
 mark, and empty comments and includes are empty

---
 .../cpp/Balau/Lang/Property/Parser/PropertyParser.hpp    | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
index b71fab4..33f8be3 100644
--- a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
@@ -371,7 +371,7 @@ class PropertyParser {
 		scannedTokens.expect(PropertyToken::Arobase, "Bug? Expected arobase token to begin comment production.");
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
-		std::string_view text = token.text;
+		std::string_view text = std::string_view(token.text.data(), 0);
 
 		while (token.token != PropertyToken::LineBreak && token.token != PropertyToken::EndOfFile) {
 			text = extend(text, token.text);
@@ -388,10 +388,13 @@ class PropertyParser {
 	}
 
 	private: std::unique_ptr<AST::PropertyNode> produceComment() {
-		scannedTokens.expect(PropertyToken::Hash, "Bug? Expected hash token to begin comment production.");
+		scannedTokens.expect(
+			  std::vector<PropertyToken> { PropertyToken::Hash, PropertyToken::Exclamation }
+			, "Bug? Expected hash or exclamation token to begin comment production."
+		);
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
-		std::string_view text = token.text;
+		std::string_view text = std::string_view(token.text.data(), 0);
 
 		while (token.token != PropertyToken::LineBreak && token.token != PropertyToken::EndOfFile) {
 			text = extend(text, token.text);
-- 
2.43.0


From 02e9dada98960db1d094699cd8f9f8719f5c8a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 008/125] fix: escapes and continuations directly after a
 property line continuation are resolved

---
 .../Balau/Lang/Property/Lang/PropertyAst.hpp  | 33 +++++++------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
index 670622d..be77dc7 100644
--- a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
@@ -115,7 +115,7 @@ class PropertyNode { // Abstract
 				switch (c) {
 					case U'\r':
 					case U'\n': {
-						skipLineContinuation(input, inOffset, output, outOffset);
+						skipLineContinuation(input, inOffset);
 						break;
 					}
 
@@ -147,33 +147,24 @@ class PropertyNode { // Abstract
 	protected: PropertyNode(PropertyNode && rhs) noexcept
 		: codeSpan(rhs.codeSpan) {}
 
-	private: static void skipLineContinuation(const std::string_view & input,
-	                                          int & inOffset,
-	                                          std::string & output,
-	                                          int & outOffset) {
-		if (inOffset == (int) input.length()) {
-			return; // Last character pair is an escaped CR or LF.
-		}
+	private: static void skipLineContinuation(const std::string_view & input, int & inOffset) {
+		// The first line break character has already been consumed. An optional
+		// second line break character followed by optional blanks are skipped.
+		int offset = inOffset;
 
-		char32_t c = Character::getNextUtf8Safe(input, inOffset);
+		if (offset < (int) input.length()) {
+			const char32_t c = Character::getNextUtf8Safe(input, offset);
 
-		if (c == U'\r' || c == U'\n') {
-			if (inOffset == (int) input.length()) {
-				return; // Last character triplet is an escaped CRLF or LFCR.
+			if (c == U'\r' || c == U'\n') {
+				inOffset = offset;
 			}
-
-			c = Character::getNextUtf8Safe(input, inOffset);
 		}
 
-		while (Character::isBlank(c)) {
-			if (inOffset == (int) input.length()) {
-				return; // End of string.
-			}
+		offset = inOffset;
 
-			c = Character::getNextUtf8Safe(input, inOffset);
+		while (offset < (int) input.length() && Character::isBlank(Character::getNextUtf8Safe(input, offset))) {
+			inOffset = offset;
 		}
-
-		Character::setUtf8AndAdvanceOffset(output, outOffset, c);
 	}
 };
 
-- 
2.43.0


From eaa84ae9b0c478df10eb269bdde38db37aae28d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 009/125] fix: reset of the scanner API tokens recalculates the
 first code span

---
 .../cpp/Balau/Lang/Common/ScannedTokens.hpp   | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index 1bb9404..138f386 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -478,16 +478,7 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 		, currentIndex(0)
 		, currentCodeSpan(1, 1, 1, 1) {
 		whitespaceModeStack.push(WhitespaceMode::DoNotConsume);
-		if (scannedTokens.tokens.size() > 1) {
-			RandomAccessScannedTokens<TokenT>::determineNewEnd(
-				  scannedTokens.tokens[0]
-				, scannedTokens.text
-				, scannedTokens.startOffsets[0]
-				, scannedTokens.startOffsets[1]
-				, currentCodeSpan.end
-				, lineLengthCache
-			);
-		}
+		calculateFirstCodeSpanEnd();
 	}
 
 	///
@@ -502,6 +493,7 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 		currentIndex = 0;
 		currentCodeSpan = CodeSpan(1, 1, 1, 1);
 		lineLengthCache.clear();
+		calculateFirstCodeSpanEnd();
 	}
 
 	///
@@ -921,6 +913,19 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	private: void calculateFirstCodeSpanEnd() {
+		if (scannedTokens.tokens.size() > 1) {
+			RandomAccessScannedTokens<TokenT>::determineNewEnd(
+				  scannedTokens.tokens[0]
+				, scannedTokens.text
+				, scannedTokens.startOffsets[0]
+				, scannedTokens.startOffsets[1]
+				, currentCodeSpan.end
+				, lineLengthCache
+			);
+		}
+	}
+
 	private: void advanceCurrentIndex() {
 		if (currentIndex == scannedTokens.tokens.size() - 1) {
 			return;
-- 
2.43.0


From 567b2170e4639339541e542709348de53e297925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 010/125] fix: code spans after escaped line breaks and when
 retreating over comments

---
 .../cpp/Balau/Lang/Common/ScannedTokens.hpp     | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index 138f386..e272f16 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -332,8 +332,10 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 	                                     std::vector<unsigned int> & lineLengthCache) {
 		static const std::regex endLineBreakRegex = std::regex("(\n\r|\r\n|\n|\r)$");
 
-		if (token == TokenT::LineBreak || token == TokenT::CommentLine || token == TokenT::CommentBlock) {
-			const std::string thisText = fullText.substr(thisOffset, nextOffset - thisOffset);
+		const std::string thisText = fullText.substr(thisOffset, nextOffset - thisOffset);
+
+		// Comment tokens and escaped line breaks may also contain line breaks.
+		if (token == TokenT::LineBreak || thisText.find_first_of("\r\n") != std::string::npos) {
 			const std::vector<size_t> lineLengths = Util::Strings::lineLengths(thisText);
 			const bool hasCurrentLine = !std::regex_search(thisText, endLineBreakRegex);
 
@@ -392,8 +394,11 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 	                                       std::vector<unsigned int> & lineLengthCache) {
 		static const std::regex lineBreakRegex = std::regex("\n\r|\r\n|\n|\r");
 
-		if (token == TokenT::LineBreak || token == TokenT::CommentLine || token == TokenT::CommentBlock) {
-			const unsigned int lineBreaks = (unsigned int) Util::Strings::occurrences(fullText.substr(thisOffset, nextOffset - thisOffset), lineBreakRegex);
+		const std::string thisText = fullText.substr(thisOffset, nextOffset - thisOffset);
+
+		// Comment tokens and escaped line breaks may also contain line breaks.
+		if (token == TokenT::LineBreak || thisText.find_first_of("\r\n") != std::string::npos) {
+			const unsigned int lineBreaks = (unsigned int) Util::Strings::occurrences(thisText, lineBreakRegex);
 
 			using ::toString;
 
@@ -405,7 +410,7 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 						, "call but no line end was found in the supplied text. "
 						, "Start offset = ", thisOffset
 						, ", end offset = ", nextOffset
-						, ", token text = ", fullText.substr(thisOffset, nextOffset - thisOffset)
+						, ", token text = ", thisText
 					);
 				}
 			);
@@ -415,6 +420,8 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 				lineLengthCache.pop_back();
 			}
 
+			// The cached length of the first line includes the text before the line break.
+			startPosition.column -= (unsigned int) thisText.find_first_of("\r\n");
 			startPosition.line -= lineBreaks;
 		} else {
 			startPosition.column -= nextOffset - thisOffset;
-- 
2.43.0


From 41146f9e102efafc4a237001fa7f1ca2df49aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 011/125] fix: putting back to a marker stops at the marker in
 all whitespace modes

---
 src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index e272f16..bbc5978 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -741,10 +741,8 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 			);
 		}
 
-		const auto steps = currentIndex - marker.index;
-
-		for (size_t m = 0; m < steps; m++) {
-			putBack();
+		while (currentIndex > marker.index) {
+			retreatCurrentIndex();
 		}
 	}
 
-- 
2.43.0


From 41941652f0abfecd1979dbf1bf9497d116c2c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 012/125] fix: retreating over scanned tokens restores the code
 spans

---
 .../cpp/Balau/Lang/Common/ScannedTokens.hpp   | 62 ++++++++-----------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index bbc5978..e9d9c82 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -385,49 +385,31 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 	}
 
 	// Updates in place the supplied start position when retreating.
-	// Also updates the line length cache when a line break is encountered.
-	private: static void determineNewStart(TokenT token,
-	                                       const std::string & fullText,
+	// The line length cache must end with the line lengths of the token.
+	private: static void determineNewStart(const std::string & fullText,
 	                                       unsigned int thisOffset,
 	                                       unsigned int nextOffset,
 	                                       CodePosition & startPosition,
-	                                       std::vector<unsigned int> & lineLengthCache) {
-		static const std::regex lineBreakRegex = std::regex("\n\r|\r\n|\n|\r");
-
-		const std::string thisText = fullText.substr(thisOffset, nextOffset - thisOffset);
-
-		// Comment tokens and escaped line breaks may also contain line breaks.
-		if (token == TokenT::LineBreak || thisText.find_first_of("\r\n") != std::string::npos) {
-			const unsigned int lineBreaks = (unsigned int) Util::Strings::occurrences(thisText, lineBreakRegex);
-
-			using ::toString;
-
-			Assert::assertion(
-				  lineBreaks != 0
-				, [&] () {
-				  	return toString(
-						  "A line break token was supplied in the determineNewStart function"
-						, "call but no line end was found in the supplied text. "
-						, "Start offset = ", thisOffset
-						, ", end offset = ", nextOffset
-						, ", token text = ", thisText
-					);
-				}
-			);
-
-			for (size_t m = 0; m < lineBreaks; m++) {
-				startPosition.column = lineLengthCache.back() + 1; // one indexed column position
-				lineLengthCache.pop_back();
-			}
+	                                       const std::vector<unsigned int> & lineLengthCache) {
+		const size_t lineBreaks = countLineBreaks(fullText, thisOffset, nextOffset);
 
+		if (lineBreaks > 0) {
 			// The cached length of the first line includes the text before the line break.
-			startPosition.column -= (unsigned int) thisText.find_first_of("\r\n");
-			startPosition.line -= lineBreaks;
+			const size_t firstLineBreak = fullText.find_first_of("\r\n", thisOffset);
+			startPosition.column = lineLengthCache[lineLengthCache.size() - lineBreaks] + 1; // one indexed column position
+			startPosition.column -= (unsigned int) (firstLineBreak - thisOffset);
+			startPosition.line -= (unsigned int) lineBreaks;
 		} else {
 			startPosition.column -= nextOffset - thisOffset;
 		}
 	}
 
+	// Counts the line breaks in the token's text.
+	private: static size_t countLineBreaks(const std::string & fullText, unsigned int thisOffset, unsigned int nextOffset) {
+		static const std::regex lineBreakRegex = std::regex("\n\r|\r\n|\n|\r");
+		return Util::Strings::occurrences(fullText.substr(thisOffset, nextOffset - thisOffset), lineBreakRegex);
+	}
+
 	friend class ScannerApiScannedTokens<TokenT>;
 
 	private: ScannedTokens<TokenT> scannedTokens;
@@ -957,11 +939,21 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 			return;
 		}
 
+		// The end point of the end of file token is not calculated.
+		if (currentIndex < scannedTokens.tokens.size() - 1) {
+			const size_t lineBreaks = RandomAccessScannedTokens<TokenT>::countLineBreaks(
+				  scannedTokens.text
+				, scannedTokens.startOffsets[currentIndex]
+				, scannedTokens.startOffsets[currentIndex + 1]
+			);
+
+			lineLengthCache.resize(lineLengthCache.size() - lineBreaks);
+		}
+
 		currentCodeSpan.end = currentCodeSpan.start;
 
 		RandomAccessScannedTokens<TokenT>::determineNewStart(
-			  scannedTokens.tokens[currentIndex - 1]
-			, scannedTokens.text
+			  scannedTokens.text
 			, scannedTokens.startOffsets[currentIndex - 1]
 			, scannedTokens.startOffsets[currentIndex]
 			, currentCodeSpan.start
-- 
2.43.0


From 3ad5c10323333228a6fb88bbc8159881812127de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 013/125] fix: equality of composite property nodes compares
 the contained nodes

---
 src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
index be77dc7..17cb4fb 100644
--- a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
@@ -32,6 +32,7 @@
 #include <Balau/Lang/Common/CodeSpan.hpp>
 #include <Balau/Type/Character.hpp>
 
+#include <algorithm>
 #include <memory>
 #include <string>
 #include <vector>
@@ -330,7 +331,10 @@ class CompositeProperty final : public PropertyNode {
 			ret = false;
 		} else {
 			ret = name == o->name
-				&& nodes == o->nodes
+				&& std::equal(
+					nodes.begin(), nodes.end(), o->nodes.begin(), o->nodes.end()
+					, [] (const auto & l, const auto & r) { return *l == *r; }
+				)
 				&& PropertyNode::operator == (rhs);
 		}
 
-- 
2.43.0


From 1033a02abf1a0228b036cfcf6744f41c45884976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 014/125] fix: out of range and negative unsigned texts are
 refused by the from-string functions

---
 .../cpp/Balau/Type/Impl/FromStringImpl.hpp    | 53 +++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
index 6ac0ba3..0b5d6b9 100644
--- a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
@@ -25,6 +25,9 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/locale.hpp>
 
+#include <cerrno>
+#include <cmath>
+
 namespace Balau::Impl {
 
 // Checks that the string is not empty and throws a conversion exception if it is.
@@ -75,6 +78,30 @@ inline void validateIntegerConversion(const std::string & value, const char * st
 	}
 }
 
+// Checks that the converted value was not clamped to the limits of the type (errno must be set to zero before the conversion).
+inline void validateConversionRange(const std::string & value, bool outOfRange) {
+	using ::toString;
+
+	if (outOfRange && errno == ERANGE) {
+		ThrowBalauException(
+			  Balau::Exception::ConversionException
+			, toString("String to numeric conversion of \"", value, "\" is out of bounds.")
+		);
+	}
+}
+
+// The standard library negates negative input of unsigned conversions modulo the range of the type.
+inline void validateUnsignedValue(const std::string & value) {
+	using ::toString;
+
+	if (value.find('-') != std::string::npos) {
+		ThrowBalauException(
+			  Balau::Exception::ConversionException
+			, toString("String to unsigned integer conversion of \"", value, "\" failed.")
+		);
+	}
+}
+
 template <typename DstT, typename SrcT> void checkLowerLimit(SrcT n) {
 	const SrcT lowerLimit = std::numeric_limits<DstT>::lowest();
 
@@ -124,8 +151,10 @@ inline long stringToLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, true);
 	return n;
 }
 
@@ -133,8 +162,10 @@ inline long stringToLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, true);
 	return n;
 }
 
@@ -142,8 +173,10 @@ inline long long stringToLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, true);
 	return n;
 }
 
@@ -151,8 +184,10 @@ inline long long stringToLongLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, true);
 	return n;
 }
 
@@ -160,8 +195,11 @@ inline unsigned long stringToUnsignedLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	Impl::validateUnsignedValue(s);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, true);
 	return n;
 }
 
@@ -169,8 +207,11 @@ inline unsigned long stringToUnsignedLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	Impl::validateUnsignedValue(s);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, true);
 	return n;
 }
 
@@ -178,8 +219,11 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	Impl::validateUnsignedValue(s);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, true);
 	return n;
 }
 
@@ -187,8 +231,11 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value, int b
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	Impl::validateUnsignedValue(s);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, true);
 	return n;
 }
 
@@ -196,8 +243,10 @@ inline float stringToFloat(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	float n = std::strtof(s.c_str(), &strEnd);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, std::isinf(n));
 	return n;
 }
 
@@ -205,8 +254,10 @@ inline double stringToDouble(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	double n = std::strtod(s.c_str(), &strEnd);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, std::isinf(n));
 	return n;
 }
 
@@ -214,8 +265,10 @@ inline long double stringToLongDouble(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long double n = std::strtold(s.c_str(), &strEnd);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, std::isinf(n));
 	return n;
 }
 
-- 
2.43.0


From 389a66a93f1cc4d69637d3acc70ce074d189b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 015/125] fix: searching for and replacing an empty string
 terminates

---
 src/main/cpp/Balau/Util/Impl/StringsImpl.hpp | 4 ++++
 src/main/cpp/Balau/Util/Strings.hpp          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp b/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
index 4d5e42c..4b53e3e 100644
--- a/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
@@ -43,6 +43,10 @@ void replaceAllImpl(StringT<CharT, T ...> & input, const MatchT & match, const R
 		*count = 0;
 	}
 
+	if (matchLength == 0) {
+		return;
+	}
+
 	while (true) {
 		pos = input.find(match, pos);
 
diff --git a/src/main/cpp/Balau/Util/Strings.hpp b/src/main/cpp/Balau/Util/Strings.hpp
index f9c96d0..fc5e926 100644
--- a/src/main/cpp/Balau/Util/Strings.hpp
+++ b/src/main/cpp/Balau/Util/Strings.hpp
@@ -223,6 +223,10 @@ struct Strings final {
 	///
 	template <typename CharT, typename ... T, template <typename ...> class StringT, typename SubstrT>
 	static size_t occurrences(const StringT<CharT, T ...> & str, const SubstrT & substring) {
+		if (Balau::Util::Impl::length(substring) == 0) {
+			return 0;
+		}
+
 		size_t index = 0;
 		size_t count = 0;
 
-- 
2.43.0


From 4dd1ce0cdc1b4f162007949e7510f248f9f3807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 016/125] fix: trimming and case changing do not read beyond
 malformed UTF-8 text

---
 src/main/cpp/Balau/Util/Strings.hpp | 70 +++++++++++------------------
 1 file changed, 26 insertions(+), 44 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Strings.hpp b/src/main/cpp/Balau/Util/Strings.hpp
index fc5e926..70452b4 100644
--- a/src/main/cpp/Balau/Util/Strings.hpp
+++ b/src/main/cpp/Balau/Util/Strings.hpp
@@ -422,28 +422,19 @@ struct Strings final {
 	///
 	///
 	static std::string toUpper(const std::string_view & s) {
-		std::string destination = std::string(s);
-		int getOffset = 0;
-		int setOffset = 0;
-
-		while (getOffset < (int) s.length()) {
-			char32_t c = Character::getNextUtf8(s, getOffset);
-			char32_t upper = Character::toUpper(c);
-
-			// Are all uppercase code points the same number of bytes as lowercase
-			// code points? The algorithm currently assumes not. If this is not the
-			// case, then this conditional code is not required.
-			const size_t charByteCount = Character::utf8ByteCount(upper);
-			if ((size_t) setOffset + charByteCount > destination.length()) {
-				destination.resize((size_t) setOffset + charByteCount);
-			}
+		std::string destination;
+		destination.reserve(s.length());
+		int offset = 0;
 
-			Character::setUtf8AndAdvanceOffset(destination, setOffset, upper);
-		}
+		while (offset < (int) s.length()) {
+			const int start = offset;
+			const char32_t c = Character::getNextUtf8Safe(s, offset);
 
-		// Ditto.
-		if ((size_t) setOffset < destination.length()) {
-			destination.resize((size_t) setOffset);
+			if (Character::isValid(c)) {
+				append(destination, Character::toUpper(c), 1);
+			} else { // Malformed bytes are copied.
+				destination.append(s.data() + start, (size_t) (offset - start));
+			}
 		}
 
 		return destination;
@@ -468,28 +459,19 @@ struct Strings final {
 	/// Convert the supplied UTF-8 string to lowercase.
 	///
 	static std::string toLower(const std::string_view & s) {
-		std::string destination = std::string(s);
-		int getOffset = 0;
-		int setOffset = 0;
-
-		while (getOffset < (int) s.length()) {
-			char32_t c = Character::getNextUtf8(s, getOffset);
-			char32_t lower  = Character::toLower(c);
-
-			// Are all lowercase code points the same number of bytes as uppercase
-			// code points? The algorithm currently assumes not. If this is not the
-			// case, then this conditional code is not required.
-			const size_t charByteCount = Character::utf8ByteCount(lower);
-			if ((size_t) setOffset + charByteCount > destination.length()) {
-				destination.resize((size_t) setOffset + charByteCount);
-			}
+		std::string destination;
+		destination.reserve(s.length());
+		int offset = 0;
 
-			Character::setUtf8AndAdvanceOffset(destination, setOffset, lower);
-		}
+		while (offset < (int) s.length()) {
+			const int start = offset;
+			const char32_t c = Character::getNextUtf8Safe(s, offset);
 
-		// Ditto.
-		if ((size_t) setOffset < destination.length()) {
-			destination.resize((size_t) setOffset);
+			if (Character::isValid(c)) {
+				append(destination, Character::toLower(c), 1);
+			} else { // Malformed bytes are copied.
+				destination.append(s.data() + start, (size_t) (offset - start));
+			}
 		}
 
 		return destination;
@@ -720,14 +702,14 @@ struct Strings final {
 		int offset = 0;
 		int startPosition = offset;
 
-		while (offset < (int) input.length() && Character::isSpace(Character::getNextUtf8(input, offset))) {
+		while (offset < (int) input.length() && Character::isSpace(Character::getNextUtf8Safe(input, offset))) {
 			startPosition = offset;
 		}
 
 		offset = (int) input.length();
 		int endPosition = offset;
 
-		while (endPosition > 0 && Character::isSpace(Character::getPreviousUtf8(input, offset))) {
+		while (endPosition > 0 && Character::isSpace(Character::getPreviousUtf8Safe(input, offset))) {
 			endPosition = offset;
 		}
 
@@ -770,7 +752,7 @@ struct Strings final {
 		int offset = 0;
 		int startPosition = offset;
 
-		while (offset < (int) input.length() && Character::isSpace(Character::getNextUtf8(input, offset))) {
+		while (offset < (int) input.length() && Character::isSpace(Character::getNextUtf8Safe(input, offset))) {
 			startPosition = offset;
 		}
 
@@ -799,7 +781,7 @@ struct Strings final {
 		auto offset = (int) input.length();
 		int endPosition = offset;
 
-		while (endPosition > 0 && Character::isSpace(Character::getPreviousUtf8(input, offset))) {
+		while (endPosition > 0 && Character::isSpace(Character::getPreviousUtf8Safe(input, offset))) {
 			endPosition = offset;
 		}
 
-- 
2.43.0


From ddeeb19d1a90b9e0d43bbcb95d705d4252174320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 017/125] fix: the highest code point is valid, and eight and
 nine are not octal digits

---
 src/main/cpp/Balau/Type/Character.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Type/Character.hpp b/src/main/cpp/Balau/Type/Character.hpp
index b44c4ee..95631c4 100644
--- a/src/main/cpp/Balau/Type/Character.hpp
+++ b/src/main/cpp/Balau/Type/Character.hpp
@@ -71,7 +71,7 @@ struct Character {
 	/// Is the specified code point one of the ASCII characters 0-7.
 	///
 	static bool isOctalDigit(char32_t c) {
-		return c >= U'0' && c <= U'9';
+		return c >= U'0' && c <= U'7';
 	}
 
 	///
@@ -301,7 +301,7 @@ struct Character {
 	/////////////////////////////// Validation ////////////////////////////////
 
 	static bool isValid(char32_t c) {
-		return c < 0x10FFFF; // Maximum Unicode code point value.
+		return c <= 0x10FFFF; // Maximum Unicode code point value.
 	}
 
 	//////////////////////////////// Mutation /////////////////////////////////
-- 
2.43.0


From 2a814d02c3e9991c24cf03882d22a4298d7e328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 018/125] fix: splitting of URIs without scheme end, with empty
 components, odd ports, or malformed UTF-8

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 82 ++++++++++---------
 1 file changed, 42 insertions(+), 40 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index cf4a049..1998669 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -167,7 +167,7 @@ struct UriComponents {
 		// of letters, digits, plus (+), period (.), or hyphen (-).
 		//
 
-		c = Character::getNextUtf8(uri, offset);
+		c = Character::getNextUtf8Safe(uri, offset);
 
 		if (!Character::isAlpha(c)) {
 			ThrowBalauException(
@@ -177,7 +177,7 @@ struct UriComponents {
 		}
 
 		while (offset < length) {
-			c = Character::getNextUtf8(uri, offset);
+			c = Character::getNextUtf8Safe(uri, offset);
 
 			if (c == U':') { // End of scheme.
 				break;
@@ -189,6 +189,10 @@ struct UriComponents {
 			}
 		}
 
+		if (c != U':') {
+			ThrowBalauException(Exception::InvalidUriException, "The scheme is not terminated by a colon.");
+		}
+
 		schemeEndOffset = short(offset - 1);
 		int userinfoEnd = -1;
 
@@ -208,13 +212,13 @@ struct UriComponents {
 				pathOffset = short(offset);
 			} else {
 				while (offset < length) {
-					c = Character::getNextUtf8(uri, offset);
+					c = Character::getNextUtf8Safe(uri, offset);
 
 					if (hostOffset == -1 && c == U'[') { // [] enclosed IPv6 address.
 						hostOffset = short(offset - 1);
 
 						while (offset < length && c != U']') {
-							c = Character::getNextUtf8(uri, offset);
+							c = Character::getNextUtf8Safe(uri, offset);
 						}
 
 						if (c != U']') { // No closing ']'?
@@ -244,7 +248,7 @@ struct UriComponents {
 						portOffset = short(offset);
 
 						while (offset < length) {
-							c = Character::getNextUtf8(uri, offset);
+							c = Character::getNextUtf8Safe(uri, offset);
 
 							if (c == U'@') { // Deprecated password.
 								ThrowBalauException(
@@ -263,31 +267,8 @@ struct UriComponents {
 				}
 
 				if (hostOffset == -1) {
-					if (userinfoOffset != -1 && offset > userinfoEnd + 1) {
-						hostOffset = short(userinfoEnd + 1);
-					} else if (offset > schemeEndOffset + 2) {
-						hostOffset = short(schemeEndOffset + 3);
-					}
-				}
-			}
-		}
-
-		// If there is an authority section, there must be a non empty host component.
-		if (userinfoOffset != -1  || portOffset != -1) {
-			if (hostOffset == -1) {
-				ThrowBalauException(
-					Exception::InvalidUriException, "Authority section does not contain host information."
-				);
-			} else if (portOffset != -1) {
-				if (portOffset == hostOffset + 1) {
-					ThrowBalauException(
-						Exception::InvalidUriException, "Authority section does not contain host information."
-					);
+					hostOffset = short(userinfoOffset != -1 ? userinfoEnd + 1 : schemeEndOffset + 3);
 				}
-			} else if (offset == hostOffset + 1) {
-				ThrowBalauException(
-					Exception::InvalidUriException, "Authority section does not contain host information."
-				);
 			}
 		}
 
@@ -298,9 +279,22 @@ struct UriComponents {
 			pathOffset = short(offset);
 		}
 
+		// If there is user info or a port, there must be a non empty host component.
+		if (userinfoOffset != -1 || portOffset != -1) {
+			const int hostEnd = portOffset != -1 ? portOffset - 1 : pathOffset;
+
+			if (hostEnd <= hostOffset) {
+				ThrowBalauException(
+					Exception::InvalidUriException, "Authority section does not contain host information."
+				);
+			}
+		}
+
 		// Mandatory path section.
+		c = 0;
+
 		while (offset < length) {
-			c = Character::getNextUtf8(uri, offset);
+			c = Character::getNextUtf8Safe(uri, offset);
 
 			if (c == U'?' || c == U'#') { // End of path.
 				break;
@@ -308,11 +302,11 @@ struct UriComponents {
 		}
 
 		// Optional query section.
-		if (offset < length && c == U'?') {
+		if (c == U'?') {
 			queryOffset = short(offset);
 
 			while (offset < length) {
-				c = Character::getNextUtf8(uri, offset);
+				c = Character::getNextUtf8Safe(uri, offset);
 
 				if (c == U'#') { // End of query.
 					break;
@@ -321,22 +315,30 @@ struct UriComponents {
 		}
 
 		// Optional fragment section.
-		if (offset < length) {
+		if (c == U'#') {
 			fragmentOffset = short(offset);
 		}
 
 		// Pre-convert the port into an unsigned short if it is set.
+		unsigned long p = 0;
+
 		if (portOffset != -1) {
-			const unsigned long p = std::stoul(uri.substr((size_t) portOffset));
+			for (int index = portOffset; index < pathOffset; index++) {
+				const char digit = uri[(size_t) index];
 
-			if (p > UINT16_MAX) {
-				ThrowBalauException(Exception::InvalidUriException, std::string("Invalid port number: ") + ::toString(p));
-			}
+				if (digit < '0' || digit > '9') {
+					ThrowBalauException(Exception::InvalidUriException, "Invalid port number (invalid digit).");
+				}
+
+				p = p * 10 + (unsigned long) (digit - '0');
 
-			parsedPort = (unsigned short) p;
-		} else {
-			parsedPort = (unsigned short) 0;
+				if (p > UINT16_MAX) {
+					ThrowBalauException(Exception::InvalidUriException, std::string("Invalid port number: ") + ::toString(p));
+				}
+			}
 		}
+
+		parsedPort = (unsigned short) p;
 	}
 
 	///
-- 
2.43.0


From 6fe291fffdaa2b238b58e9023ed63aa34c609e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 019/125] fix: normalizePath removes single dots and all pairs
 of directory and double dots

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 35 ++++---------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 1998669..02cd623 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -68,38 +68,17 @@ struct UriComponents {
 		const auto pathComponents = Util::Strings::split(path, "/");
 		const bool absolute = Util::Strings::startsWith(path, "/");
 		std::vector<std::string_view> newPathComponents;
-		std::vector<size_t> pendingComponents;
-		size_t index = 0;
-		bool lastWasDotDot = false;
 
 		for (const auto & pathComponent : pathComponents) {
-			if (pathComponent == "..") {
-				if (!pendingComponents.empty()) {
-					pendingComponents.pop_back();
-					lastWasDotDot = true;
-				} else {
-					newPathComponents.push_back(pathComponent);
-				}
-			} else {
-				if (lastWasDotDot) {
-					// Commit pending components.
-					for (size_t componentIndex : pendingComponents) {
-						newPathComponents.push_back(pathComponents[componentIndex]);
-					}
-
-					pendingComponents.clear();
-					lastWasDotDot = false;
-				}
-
-				pendingComponents.push_back(index);
+			if (pathComponent == ".") {
+				continue;
 			}
 
-			++index;
-		}
-
-		// Commit remaining pending components.
-		for (size_t componentIndex : pendingComponents) {
-			newPathComponents.push_back(pathComponents[componentIndex]);
+			if (pathComponent == ".." && !newPathComponents.empty() && newPathComponents.back() != "..") {
+				newPathComponents.pop_back();
+			} else {
+				newPathComponents.push_back(pathComponent);
+			}
 		}
 
 		return (absolute ? "/" : "") + Util::Strings::joinContainer("/", newPathComponents);
-- 
2.43.0


From 26dd5ad51cae583a2aa6223322a6ebab9151684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 020/125] fix: percent decoding neither reads beyond the input
 nor accepts malformed escapes and UTF-8

---
 .../cpp/Balau/Network/Utilities/UrlDecode.hpp | 45 ++++++-------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
index 2241bfc..577058b 100644
--- a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
@@ -127,36 +127,19 @@ struct UrlDecode {
 				case '%': {
 					std::string thisOutput;
 
-					while (input[index] == '%') {
-						++index;
-
-						if (index == input.length()) {
-							// Illegal input.. % character on its own at the end.
-							if (throwOnError) {
-								ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
-							}
-
-							continue;
-						}
-
-						const size_t x = index;
-						++index;
-
-						if (index == input.length()) {
-							// Illegal input.. % character with single following character at the end.
-							if (throwOnError) {
-								ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
-							}
-
-							continue;
+					while (index < input.length() && input[index] == '%') {
+						const std::string_view v = input.substr(index + 1, 2);
+						index += 1 + v.length();
+
+						if (v.length() == 2 && Character::isHexDigit((unsigned char) v[0]) && Character::isHexDigit((unsigned char) v[1])) {
+							// Convert the hex character pair into an unsigned byte.
+							unsigned char b;
+							fromString(b, v, 16);
+							thisOutput += (char) b;
+						} else if (throwOnError) {
+							// Illegal input.. % character not followed by two hexadecimal characters.
+							ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
 						}
-
-						// Try to convert the hex character pair into an unsigned byte.
-						std::string_view v = input.substr(x, 2);
-						unsigned char b;
-						fromString(b, v, 16);
-						thisOutput += (char) b;
-						++index;
 					}
 
 					bool valid = true;
@@ -165,9 +148,7 @@ struct UrlDecode {
 						int offset = 0;
 
 						while (offset != (int) thisOutput.length()) {
-							Character::getNextUtf8Safe(thisOutput, offset);
-
-							if (offset < 0) {
+							if (!Character::isValid(Character::getNextUtf8Safe(thisOutput, offset))) {
 								// Not valid UTF-8.
 								if (throwOnError) {
 									ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
-- 
2.43.0


From ca2c1830816215f86e0ea75a567945348d936ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 021/125] fix: the integer to-string buffer has room for the
 sign

---
 src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
index a628f3d..023a331 100644
--- a/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
@@ -37,8 +37,9 @@ template <typename T, unsigned long N = std::numeric_limits<T>::max()> struct Ch
 	static constexpr size_t count = CharacterCount<T, N / 10>::count + 1;
 };
 
+// The terminating null character and the sign.
 template <typename T> struct CharacterCount<T, 0> {
-	static constexpr size_t count = 1;
+	static constexpr size_t count = 1 + (std::numeric_limits<T>::is_signed ? 1 : 0);
 };
 
 template <typename AllocatorT, typename T>
-- 
2.43.0


From 9761b323cabd2c283fd3cc2d6ab20367d36fb46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 022/125] fix: File queries ask for the current state of the
 path

The directory entry inside File caches the state of the path at the first
query, and the Boost version's entry queries throw when nothing exists.
---
 src/main/cpp/Balau/Resource/File.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index d18b354..1aeab05 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -385,7 +385,7 @@ class File : public Uri {
 	/// @return true if an item exits in the file system for the file URI
 	///
 	public: bool exists() const {
-		return boost::filesystem::exists(entry);
+		return boost::filesystem::exists(entry.path());
 	}
 
 	///
@@ -395,7 +395,7 @@ class File : public Uri {
 	///
 	public: size_t size() const {
 		boost::system::error_code errorCode;
-		boost::uintmax_t sz = boost::filesystem::file_size(entry, errorCode);
+		boost::uintmax_t sz = boost::filesystem::file_size(entry.path(), errorCode);
 
 		if (errorCode) {
 			ThrowBalauException(
@@ -413,7 +413,7 @@ class File : public Uri {
 	/// @return the modified time of the file
 	///
 	public: std::chrono::system_clock::time_point getModifiedTimestamp() const {
-		return std::chrono::system_clock::from_time_t(boost::filesystem::last_write_time(entry));
+		return std::chrono::system_clock::from_time_t(boost::filesystem::last_write_time(entry.path()));
 	}
 
 	///
@@ -422,7 +422,7 @@ class File : public Uri {
 	/// @return true if the file URI points to a directory
 	///
 	public: bool isRegularDirectory() const override {
-		return boost::filesystem::is_directory(entry);
+		return boost::filesystem::is_directory(entry.path());
 	}
 
 	///
@@ -431,7 +431,7 @@ class File : public Uri {
 	/// @return true if the file URI points to a regular file
 	///
 	public: bool isRegularFile() const override {
-		return boost::filesystem::is_regular_file(entry);
+		return boost::filesystem::is_regular_file(entry.path());
 	}
 
 	///
-- 
2.43.0


From 7951bcbe2e64a63e72ba271359bf3edface8c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 023/125] fix: destruction of moved-from file and HTTP
 resources

---
 src/main/cpp/Balau/Resource/File.hpp | 16 ++++++++++++----
 src/main/cpp/Balau/Resource/Http.hpp |  8 ++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index 1aeab05..6b6aa51 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -741,7 +741,9 @@ class FileByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) { // Not set after a move.
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -792,7 +794,9 @@ class FileByteWriteResource : public ByteWriteResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) { // Not set after a move.
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -849,7 +853,9 @@ class FileUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) { // Not set after a move.
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -906,7 +912,9 @@ class FileUtf32To8WriteResource : public Utf32To8WriteResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) { // Not set after a move.
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
diff --git a/src/main/cpp/Balau/Resource/Http.hpp b/src/main/cpp/Balau/Resource/Http.hpp
index 0e1197e..c33b08c 100644
--- a/src/main/cpp/Balau/Resource/Http.hpp
+++ b/src/main/cpp/Balau/Resource/Http.hpp
@@ -447,7 +447,9 @@ class HttpByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) { // Not set after a move.
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -486,7 +488,9 @@ class HttpsByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) { // Not set after a move.
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From cb5996a198fd86b803ff720b2b9b0c400af68558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 024/125] fix: equal File URIs have the same hash code

---
 src/main/cpp/Balau/Resource/File.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index 6b6aa51..95fa4ad 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -35,6 +35,7 @@
 #include <Balau/Util/Strings.hpp>
 
 #include <boost/filesystem.hpp>
+#include <boost/functional/hash.hpp>
 #include <chrono>
 
 namespace Balau::Resource {
@@ -516,7 +517,13 @@ class File : public Uri {
 	}
 
 	public: size_t hashcode() const noexcept override {
-		return std::hash<std::string>()(entry.path().string());
+		size_t hash = 0;
+
+		for (const auto & element : entry.path()) { // As equality does.
+			boost::hash_combine(hash, element.native());
+		}
+
+		return hash;
 	}
 
 	///
-- 
2.43.0


From 58d84e045b4f719832b8a432e335908c10d5d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 025/125] fix: file URI text with an empty authority names the
 absolute path

---
 src/main/cpp/Balau/Resource/UriFromString.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/Balau/Resource/UriFromString.hpp b/src/main/cpp/Balau/Resource/UriFromString.hpp
index 3048d2d..9e633af 100644
--- a/src/main/cpp/Balau/Resource/UriFromString.hpp
+++ b/src/main/cpp/Balau/Resource/UriFromString.hpp
@@ -64,6 +64,10 @@ inline void fromString(std::unique_ptr<Uri> & uri, std::string_view value) {
 	if (scheme == "file") {
 		auto s = value.substr(value.find(':') + 1);
 		path = std::string(s.data(), s.length());
+
+		if (Util::Strings::startsWith(path, "///")) { // Empty authority, absolute path.
+			path = path.substr(2);
+		}
 	} else { // Implicit file schema or zip archive.
 		path = std::string(value);
 	}
-- 
2.43.0


From 8bda1ae87dd1561eb8fad92827212e9f123ad9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 026/125] fix: HTTP URLs resolve and append relative to their
 path, keeping user information and port

---
 src/main/cpp/Balau/Resource/UriResolve.hpp | 19 +++++++++++++++----
 src/main/cpp/Balau/Resource/Url.hpp        |  6 +++---
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriResolve.hpp b/src/main/cpp/Balau/Resource/UriResolve.hpp
index 1b62191..46a2963 100644
--- a/src/main/cpp/Balau/Resource/UriResolve.hpp
+++ b/src/main/cpp/Balau/Resource/UriResolve.hpp
@@ -60,6 +60,11 @@ class UriResolve {
 	public: static std::unique_ptr<Uri> resolve(const ZipEntry & zipEntry, std::string_view path);
 	public: static std::unique_ptr<Uri> resolve(const ZipFile & zipFile, std::string_view path);
 
+	private: static std::string authorityPrefix(const UriComponents & components) {
+		const std::string & uri = components.getUri();
+		return uri.substr(0, uri.length() - components.pathQueryFragment().length());
+	}
+
 	private: struct UriResolveVisitor : public UriVisitor {
 		std::string_view path;
 		std::unique_ptr<Uri> resultUri;
@@ -186,12 +191,15 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const Http & http, std::string_v
 
 	if (Util::Strings::startsWith(str, "/")) {
 		// Absolute path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), str);
+		std::string url = authorityPrefix(components) + str;
 		return std::unique_ptr<Uri>(new Http(url));
 	} else {
 		// Relative path.
 		// TODO normalise path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), "/", components.path(), "/", str);
+		// Strip the rightmost path element, if any, to form the base path.
+		const std::string_view p = components.path();
+		const std::string base = p.empty() ? "/" : std::string(p.substr(0, p.rfind('/') + 1));
+		std::string url = authorityPrefix(components) + base + str;
 		return std::unique_ptr<Uri>(new Http(url));
 	}
 }
@@ -212,12 +220,15 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const Https & https, std::string
 
 	if (Util::Strings::startsWith(str, "/")) {
 		// Absolute path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), str);
+		std::string url = authorityPrefix(components) + str;
 		return std::unique_ptr<Uri>(new Https(url));
 	} else {
 		// Relative path.
 		// TODO normalise path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), "/", components.path(), "/", str);
+		// Strip the rightmost path element, if any, to form the base path.
+		const std::string_view p = components.path();
+		const std::string base = p.empty() ? "/" : std::string(p.substr(0, p.rfind('/') + 1));
+		std::string url = authorityPrefix(components) + base + str;
 		return std::unique_ptr<Uri>(new Https(url));
 	}
 }
diff --git a/src/main/cpp/Balau/Resource/Url.hpp b/src/main/cpp/Balau/Resource/Url.hpp
index d9b0da6..66906b3 100644
--- a/src/main/cpp/Balau/Resource/Url.hpp
+++ b/src/main/cpp/Balau/Resource/Url.hpp
@@ -73,9 +73,9 @@ class Url : public Uri {
 		const UriComponents components(uri);
 		// TODO normalise path.
 
-		std::string url = ::toString(
-			components.scheme(), "://", components.host(), components.path(), "/", pathComponent
-		);
+		// Everything up to the path, including any user information and port.
+		const std::string prefix = uri.substr(0, uri.length() - components.pathQueryFragment().length());
+		std::string url = ::toString(prefix, components.path(), "/", pathComponent);
 
 		if (components.hasQuery()) {
 			url += "?";
-- 
2.43.0


From e2ef7f9fdf11c383dfe909bf7bc7710ad0cd4549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 027/125] fix: destruction of moved-from HTTP UTF-32 resources

---
 src/main/cpp/Balau/Resource/Http.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/Http.hpp b/src/main/cpp/Balau/Resource/Http.hpp
index c33b08c..adfe04a 100644
--- a/src/main/cpp/Balau/Resource/Http.hpp
+++ b/src/main/cpp/Balau/Resource/Http.hpp
@@ -536,7 +536,9 @@ class HttpsUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		utf32Stream->close();
+		if (utf32Stream) { // Not set after a move.
+			utf32Stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -584,7 +586,9 @@ class HttpUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		utf32Stream->close();
+		if (utf32Stream) { // Not set after a move.
+			utf32Stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From a5f444a9379ab381b6746112692c89b35c23f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 028/125] fix: relative resolution from zip entries and zip
 files strips the rightmost element

---
 src/main/cpp/Balau/Resource/UriResolve.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriResolve.hpp b/src/main/cpp/Balau/Resource/UriResolve.hpp
index 46a2963..30ce9f2 100644
--- a/src/main/cpp/Balau/Resource/UriResolve.hpp
+++ b/src/main/cpp/Balau/Resource/UriResolve.hpp
@@ -272,8 +272,8 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const ZipEntry & zipEntry, std::
 	} else {
 		// Relative path.
 		const std::string entryName = zipEntry.archive.getEntryName(zipEntry.entryIndex);
-		const std::string normalisedName = UriComponents::normalizePath(entryName);
-		const auto newName = normalisedName + str;
+		const std::string basePath = entryName.substr(0, entryName.rfind('/') + 1); // Strip the rightmost element, if any.
+		const auto newName = UriComponents::normalizePath(basePath + str);
 		return std::unique_ptr<Uri>(new ZipEntry(zipEntry.archive, zipEntry.archive.getEntryIndex(newName)));
 	}
 }
@@ -293,7 +293,7 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const ZipFile & zipFile, std::st
 	boost::filesystem::path p(str);
 
 	if (p.is_relative()) {
-		auto p2 = boost::filesystem::relative(p, zipFile.entry.path());
+		auto p2 = (zipFile.getParentDirectory().getEntry() / p).lexically_normal();
 		return std::unique_ptr<Uri>(new ZipFile(File(p2)));
 	} else { // absolute
 		return std::unique_ptr<Uri>(new ZipFile(File(p)));
-- 
2.43.0


From fe90dbc09830be34f34fe5d2f3661cf334505752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 029/125] fix: text written through a string URI's UTF-32
 resource is appended once and without padding

---
 src/main/cpp/Balau/Resource/StringUri.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/StringUri.hpp b/src/main/cpp/Balau/Resource/StringUri.hpp
index 8e584e6..5ad7cd8 100644
--- a/src/main/cpp/Balau/Resource/StringUri.hpp
+++ b/src/main/cpp/Balau/Resource/StringUri.hpp
@@ -358,13 +358,11 @@ class StringUriUtf32To8WriteResource : public Utf32To8WriteResource {
 	}
 
 	public: void close() override {
-		// TODO Determine why the temporary padding is required.. is this a defect?
-		*utf32Stream << U"XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX";
-		utf32Stream->flush();
-		auto s = utf8Stream->str();
-		std::string_view sv = s;
-		std::string_view sv2 = sv.substr(0, sv.length() - 100);
-		stringUri.append(sv2);
+		if (utf32Stream && utf32Stream->is_open()) { // Not closed already and not moved from.
+			utf32Stream->close(); // Flushes the converter.
+			const std::string text = utf8Stream->str();
+			stringUri.append(std::string_view(text));
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From e9862906a797db21420da68769f7b186f35d7108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 030/125] fix: bytes written through a string URI's byte
 resource reach the string

---
 src/main/cpp/Balau/Resource/StringUri.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/StringUri.hpp b/src/main/cpp/Balau/Resource/StringUri.hpp
index 5ad7cd8..8e67548 100644
--- a/src/main/cpp/Balau/Resource/StringUri.hpp
+++ b/src/main/cpp/Balau/Resource/StringUri.hpp
@@ -252,11 +252,11 @@ class StringUriByteWriteResource : public ByteWriteResource {
 	/// Create a new string Uri byte write resource from the supplied String URI.
 	///
 	public: explicit StringUriByteWriteResource(StringUri & stringUri_)
-		: stringUri(std::make_unique<StringUri>(stringUri_))
-		, stream(stringUri->getString()) {}
+		: stringUri(stringUri_)
+		, stream() {}
 
 	public: StringUriByteWriteResource(StringUriByteWriteResource && rhs) noexcept
-		: stringUri(std::move(rhs.stringUri))
+		: stringUri(rhs.stringUri)
 		, stream(std::move(rhs.stream)) {}
 
 	public: ~StringUriByteWriteResource() override {
@@ -268,14 +268,18 @@ class StringUriByteWriteResource : public ByteWriteResource {
 	}
 
 	public: const Uri & uri() const override {
-		return *stringUri;
+		return stringUri;
 	}
 
-	public: void close() override {}
+	public: void close() override {
+		const std::string bytes = stream.str();
+		stringUri.append(std::string_view(bytes));
+		stream.str(""); // Append once only.
+	}
 
 	////////////////////////// Private implementation /////////////////////////
 
-	private: std::unique_ptr<StringUri> stringUri;
+	private: StringUri & stringUri;
 	private: std::ostringstream stream;
 };
 
-- 
2.43.0


From 2de59ad2ab277ea2097646511a14464e2c487794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 031/125] fix: converting an empty string to a character vector
 does not copy from or to null

---
 src/main/cpp/Balau/Util/Vectors.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Vectors.hpp b/src/main/cpp/Balau/Util/Vectors.hpp
index 2b7506d..800173e 100644
--- a/src/main/cpp/Balau/Util/Vectors.hpp
+++ b/src/main/cpp/Balau/Util/Vectors.hpp
@@ -140,20 +140,14 @@ struct Vectors final {
 	/// Convert the supplied UTF-8 string to a char vector.
 	///
 	static std::vector<char> toCharVector(const std::string & str) {
-		std::vector<char> ret;
-		ret.resize(str.length());
-		std::memcpy(ret.data(), str.c_str(), str.length());
-		return ret;
+		return std::vector<char>(str.begin(), str.end());
 	}
 
 	///
 	/// Convert the supplied UTF-32 string to a char32_t vector.
 	///
 	static std::vector<char32_t> toCharVector(const std::u32string & str) {
-		std::vector<char32_t> ret;
-		ret.resize(str.length());
-		std::memcpy(ret.data(), str.c_str(), str.length() * sizeof(char32_t));
-		return ret;
+		return std::vector<char32_t>(str.begin(), str.end());
 	}
 
 	///
-- 
2.43.0


From 51dc58d1d3b8b560fb814a983531d0146c0fcb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 032/125] fix: reading an HTTP resource whose server does not
 answer throws instead of dereferencing null

---
 src/main/cpp/Balau/Resource/Http.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/cpp/Balau/Resource/Http.hpp b/src/main/cpp/Balau/Resource/Http.hpp
index adfe04a..28a181b 100644
--- a/src/main/cpp/Balau/Resource/Http.hpp
+++ b/src/main/cpp/Balau/Resource/Http.hpp
@@ -26,11 +26,13 @@
 #ifndef COM_BORA_SOFTWARE__BALAU_RESOURCE__HTTP
 #define COM_BORA_SOFTWARE__BALAU_RESOURCE__HTTP
 
+#include <Balau/Exception/NetworkExceptions.hpp>
 #include <Balau/Resource/ByteReadResource.hpp>
 #include <Balau/Resource/UriComponents.hpp>
 #include <Balau/Resource/Url.hpp>
 #include <Balau/Resource/Utf8To32ReadResource.hpp>
 #include <Balau/ThirdParty/CppHttpLib/HttpLib.hpp>
+#include <Balau/Util/Vectors.hpp>
 
 #include <boost/iostreams/code_converter.hpp>
 #include <boost/iostreams/concepts.hpp>
@@ -336,6 +338,11 @@ class HttpSource : public boost::iostreams::source {
 	private: std::vector<char> getBody() {
 		auto p = url.pathQueryFragment();
 		auto response = client->Get(std::string(p).c_str());
+
+		if (!response) {
+			ThrowBalauException(Exception::NetworkException, "No response was received from " + toString(url));
+		}
+
 		return Util::Vectors::toCharVector(response->body);
 	}
 
@@ -405,6 +412,11 @@ class HttpsSource : public boost::iostreams::source {
 
 	private: std::vector<char> getBody() {
 		auto response = client->Get(std::string(url.pathQueryFragment()).c_str());
+
+		if (!response) {
+			ThrowBalauException(Exception::NetworkException, "No response was received from " + toString(url));
+		}
+
 		return Util::Vectors::toCharVector(response->body);
 	}
 
-- 
2.43.0


From 41c8fdeb682c304a341204b9a1e011ef0016f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 033/125] fix: managed shared memory objects are opened under
 their name and removed by their creator

---
 .../Interprocess/MSharedMemoryObject.hpp      | 71 +++++++++++++++----
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
index ab0490b..61ca714 100644
--- a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
@@ -33,6 +33,8 @@
 
 #include <boost/interprocess/managed_shared_memory.hpp>
 
+#include <unistd.h>
+
 namespace Balau::Exception {
 
 ///
@@ -85,7 +87,8 @@ template <typename T> class MSharedMemoryObject {
 	/// The specified name prefix is used.
 	///
 	public: template <typename ... P>
-	MSharedMemoryObject(CreateOnlySelector, const std::string & name, const P & ... params) {
+	MSharedMemoryObject(CreateOnlySelector, const std::string & name_, const P & ... params)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 
 		boost::interprocess::shared_memory_object::remove(memoryName.c_str());
@@ -94,6 +97,7 @@ template <typename T> class MSharedMemoryObject {
 			CreateOnlySelector(), memoryName.c_str(), metadataOverhead + sizeof(T)
 		);
 
+		owner = getpid();
 		object = segment.construct<T>((name + "_object").c_str())(params ...);
 	}
 
@@ -105,16 +109,27 @@ template <typename T> class MSharedMemoryObject {
 	/// If the object already exists, it is opened and the supplied parameters are ignored.
 	///
 	public: template <typename ... P>
-	MSharedMemoryObject(OpenOrCreateSelector, const std::string & name, const P & ... params) {
+	MSharedMemoryObject(OpenOrCreateSelector, const std::string & name_, const P & ... params)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 
-		boost::interprocess::shared_memory_object::remove(memoryName.c_str());
-
 		segment = boost::interprocess::managed_shared_memory(
 			boost::interprocess::open_or_create, memoryName.c_str(), metadataOverhead + sizeof(T)
 		);
 
-		object = segment.construct<T>((name + "_object").c_str())(params ...);
+		const std::string objectName = name + "_object";
+
+		// Find or construct the object, noting whether this process is the creator.
+		auto findOrConstruct = [&] () {
+			object = segment.find<T>(objectName.c_str()).first;
+
+			if (object == nullptr) {
+				owner = getpid();
+				object = segment.construct<T>(objectName.c_str())(params ...);
+			}
+		};
+
+		segment.atomic_func(findOrConstruct);
 	}
 
 	///
@@ -124,7 +139,8 @@ template <typename T> class MSharedMemoryObject {
 	///
 	/// @throw NotFoundException if no such shared memory object exists
 	///
-	public: MSharedMemoryObject(OpenOnlySelector, const std::string & name) {
+	public: MSharedMemoryObject(OpenOnlySelector, const std::string & name_)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 		segment = boost::interprocess::managed_shared_memory(boost::interprocess::open_only, memoryName.c_str());
 		auto item = segment.find<T>((name + "_object").c_str());
@@ -145,10 +161,13 @@ template <typename T> class MSharedMemoryObject {
 	///
 	/// @throw NotFoundException if no such shared memory object exists
 	///
-	public: MSharedMemoryObject(OpenReadOnlySelector, const std::string & name) {
+	public: MSharedMemoryObject(OpenReadOnlySelector, const std::string & name_)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 		segment = boost::interprocess::managed_shared_memory(boost::interprocess::open_read_only, memoryName.c_str());
-		auto item = segment.find<T>((name + "_object").c_str());
+
+		// The mapping is read-only, hence the lock inside it cannot be taken.
+		auto item = segment.find_no_lock<T>((name + "_object").c_str());
 
 		if (item.first == nullptr) {
 			ThrowBalauException(
@@ -162,9 +181,11 @@ template <typename T> class MSharedMemoryObject {
 	///
 	/// Destroy the shared memory object.
 	///
+	/// The object is destroyed and its shared memory is removed when this is the
+	/// instance which created it, in the process which created it.
+	///
 	public: ~MSharedMemoryObject() {
-		segment.destroy<T>((name + "_memory").c_str());
-		boost::interprocess::shared_memory_object::remove((name + "_object").c_str());
+		release();
 	}
 
 	///
@@ -173,18 +194,26 @@ template <typename T> class MSharedMemoryObject {
 	public: MSharedMemoryObject(MSharedMemoryObject && rhs) noexcept
 		: name(std::move(rhs.name))
 		, segment(std::move(rhs.segment))
-		, object(rhs.object) {
+		, object(rhs.object)
+		, owner(rhs.owner) {
 		rhs.object = nullptr;
+		rhs.owner = 0;
 	}
 
 	///
 	/// Assign a shared memory object by moving from a previously created one.
 	///
 	public: MSharedMemoryObject & operator = (MSharedMemoryObject && rhs) noexcept {
-		name = std::move(rhs.name);
-		segment = std::move(rhs.segment);
-		object = rhs.object;
-		rhs.object = nullptr;
+		if (this != &rhs) {
+			release();
+			name = std::move(rhs.name);
+			segment = std::move(rhs.segment);
+			object = rhs.object;
+			owner = rhs.owner;
+			rhs.object = nullptr;
+			rhs.owner = 0;
+		}
+
 		return *this;
 	}
 
@@ -222,12 +251,24 @@ template <typename T> class MSharedMemoryObject {
 
 	///////////////////////// Private implementation //////////////////////////
 
+	private: void release() {
+		if (object != nullptr && owner == getpid()) {
+			segment.destroy_ptr(object);
+			boost::interprocess::shared_memory_object::remove((name + "_memory").c_str());
+		}
+
+		object = nullptr;
+	}
+
 	// Reserved memory for metadata/index used in the allocated block.
 	private: static const size_t metadataOverhead = 512;
 
 	private: std::string name;
 	private: boost::interprocess::managed_shared_memory segment;
 	private: T * object = nullptr;
+
+	// The process that created the object, or zero if this instance did not create it.
+	private: pid_t owner = 0;
 };
 
 } // namespace Balau::Interprocess
-- 
2.43.0


From f41ab6c10ef496ce20e68b97eef83c51f52683cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 034/125] fix: the wait of the shared memory queue's tryEnqueue
 does not depend on the time zone

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 4811e66..a852a15 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -366,7 +366,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 
 		if (marshalBuffer.size() <= chunkSize) {
 			// The message fits in a single buffer.
-			auto timeout = boost::posix_time::microsec_clock::local_time() + boost::posix_time::millisec(waitTime.count());
+			auto timeout = boost::posix_time::microsec_clock::universal_time() + boost::posix_time::millisec(waitTime.count());
 			return queue.timed_send(marshalBuffer.data(), marshalBuffer.size(), priority, timeout);
 		} else {
 			// Oversize objects cannot be try enqueued, thus an exception is thrown.
-- 
2.43.0


From 28d206518f09ec5f71ba18c3e312b4ec07ee1b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 035/125] fix: the shared memory queue's tryDequeue reports its
 success

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index a852a15..62efc05 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -492,9 +492,11 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		unsigned int priority;
 
 		if (!tryDequeueNextBuffer(queueBuffer, receivedSize, priority, 0, waitTime)) {
+			success = false;
 			return T();
 		}
 
+		success = true;
 		const auto * queueHeader = (const Impl::QueueHeader *) queueBuffer.data();
 
 		if (queueHeader->chunkCount == 1) {
@@ -504,7 +506,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// The object is split across multiple buffers, potentially interleaved with other buffers.
 			return performMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, this] (CharVector & marshalBuffer,
+				, [waitTime, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
@@ -515,6 +517,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 						);
 
 						marshalBuffer = CharVector();
+						success = false;
 						return false;
 					}
 
@@ -525,7 +528,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// This is a partially dequeued multi-chunk dequeue which was previously placed on the pending queue.
 			return completeMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, this] (CharVector & marshalBuffer,
+				, [waitTime, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
@@ -535,6 +538,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 							PendingBuffer(std::move(queueBuffer), queueBuffer.size(), thisPriority)
 						);
 						marshalBuffer = CharVector();
+						success = false;
 						return false;
 					}
 
-- 
2.43.0


From 91a961fc2db5d0b2e641c26bed2a1172b9138a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 036/125] fix: a shared memory queue receiver that gives up
 again keeps the received parts

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 62efc05..4021e78 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -535,7 +535,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 					                size_t rejected) {
 					if (!tryDequeueNextBuffer(queueBuffer, thisReceivedSize, thisPriority, rejected, waitTime)) {
 						pendingBuffers.emplace_front(
-							PendingBuffer(std::move(queueBuffer), queueBuffer.size(), thisPriority)
+							PendingBuffer(std::move(marshalBuffer), marshalBuffer.size(), thisPriority)
 						);
 						marshalBuffer = CharVector();
 						success = false;
-- 
2.43.0


From 480fd2757077a5424c38b7a8cb67a9bfd601f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 037/125] fix: opening an existing shared memory queue uses its
 buffer size

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 4021e78..43db1d3 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -175,7 +175,6 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			  OpenOrCreateSelector()
 			, capacity
 			, calculateDefaultBufferSize()
-			, true
 			, std::move(name_)
 			, throwOnOversize_
 		) {}
@@ -200,7 +199,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	                          bool throwOnOversize_ = false)
 		: name(std::move(name_))
 		, queue(openOrCreateQueue(capacity, bufferSize_))
-		, chunkSize(bufferSize_)
+		, chunkSize((unsigned int) queue.get_max_msg_size())
 		, queueState(OpenOrCreateSelector(), name + "_queueState")
 		, throwOnOversize(throwOnOversize_) {}
 
-- 
2.43.0


From 0835f1bc67315fbfddda74777927dba8b74c2308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 038/125] fix: shared memory queue parts are written at
 unaligned positions and read within the buffer

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 43db1d3..9db1db6 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -271,11 +271,9 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 
 			for (unsigned int m = 0; m < chunkCount; m++) {
 				size_t chunkStart = dataStart - HeaderSize;
-				auto & chunkHeader = * (Impl::QueueHeader *) (marshalBuffer.data() + chunkStart);
-				chunkHeader.sequenceNumber = messageHeader.sequenceNumber;
-				chunkHeader.chunkCount = chunkCount;
-				chunkHeader.chunkNumber = m;
-				chunkHeader.totalBytes = totalBytes;
+				// The chunk start is not necessarily aligned.
+				const Impl::QueueHeader chunkHeader { messageHeader.sequenceNumber, chunkCount, m, totalBytes };
+				memcpy(marshalBuffer.data() + chunkStart, &chunkHeader, HeaderSize);
 
 				// Account for a potentially partial buffer for the last queue buffer.
 				const size_t chunkBytes = m < chunkCount - 1
@@ -745,7 +743,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	private: T unmarshal(const CharVector & buffer) {
 		// Uncomment the following line for debug output.
 		//std::cerr << toString(getpid(), " -\n", Util::PrettyPrint::printHexBytes(buffer.data(), buffer.size(), 90, 2), "\n");
-		SourceBuffer iStreamBuffer(SourceDevice(buffer.data() + HeaderSize, buffer.size()));
+		SourceBuffer iStreamBuffer(SourceDevice(buffer.data() + HeaderSize, buffer.size() - HeaderSize));
 		boost::archive::binary_iarchive archive(iStreamBuffer);
 		T object;
 		archive >> BoostSerialization(object);
-- 
2.43.0


From ee51447f45784a98c1957b022da5a92cbe86295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 039/125] fix: objects set aside while a multi-part object is
 dequeued keep their order and count as queued

---
 .../Balau/Interprocess/SharedMemoryQueue.hpp    | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 9db1db6..d3574f1 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -44,6 +44,7 @@
 #include <boost/iostreams/filtering_stream.hpp>
 #include <boost/iostreams/stream.hpp>
 
+#include <algorithm>
 #include <deque>
 
 // Ignore false positives for constructor field initialisation.
@@ -550,7 +551,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	}
 
 	public: bool empty() const override {
-		return queue.get_num_msg() == 0;
+		return pendingBuffers.empty() && queue.get_num_msg() == 0;
 	}
 
 	///
@@ -605,6 +606,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			}
 
 			if (partsLeft == 0) {
+				restorePendingOrder(rejectedPendingBuffers);
 				return unmarshal(marshalBuffer);
 			}
 
@@ -664,11 +666,24 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			}
 
 			if (partsLeft == 0) {
+				restorePendingOrder(rejectedPendingBuffers);
 				return unmarshal(marshalBuffer);
 			}
 		}
 	}
 
+	//
+	// The rejected pending buffers have been moved to the back of the pending list.
+	// Place them in front of the pending buffers that were received after them.
+	//
+	private: void restorePendingOrder(size_t rejectedPendingBuffers) {
+		std::rotate(
+			  pendingBuffers.begin()
+			, pendingBuffers.end() - (std::ptrdiff_t) rejectedPendingBuffers
+			, pendingBuffers.end()
+		);
+	}
+
 	//
 	// Dequeue next buffer form the pending list if the pending list size is greater
 	// than rejectedPendingBuffers, otherwise dequeue from the shared memory queue.
-- 
2.43.0


From a55c957b88c808e4f7af7c0e3254040ff9fec384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 040/125] fix: unmanaged shared memory objects are opened under
 their name and removed by their creator only

---
 .../Interprocess/USharedMemoryObject.hpp      | 61 +++++++++++++------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
index 1573e67..aa5de90 100644
--- a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
@@ -34,6 +34,8 @@
 #include <boost/interprocess/mapped_region.hpp>
 #include <boost/interprocess/shared_memory_object.hpp>
 
+#include <unistd.h>
+
 namespace Balau::Interprocess {
 
 ///
@@ -76,6 +78,7 @@ template <typename T> class USharedMemoryObject {
 			CreateOnlySelector(), name.c_str(), boost::interprocess::read_write
 		);
 
+		owner = getpid();
 		sharedMemoryObject.truncate(sizeof(T));
 		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, boost::interprocess::read_write);
 		object = new (mappedRegion.get_address()) T(params ...);
@@ -91,18 +94,17 @@ template <typename T> class USharedMemoryObject {
 	public: template <typename ... P>
 	USharedMemoryObject(boost::interprocess::open_or_create_t, std::string name_, const P & ... params)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object::remove(name.c_str());
-
-		boost::interprocess::shared_memory_object shm_obj(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_or_create, name.c_str(), boost::interprocess::read_write
 		);
 
-		boost::interprocess::offset_t size;
+		boost::interprocess::offset_t size = 0;
 
-		if (shm_obj.get_size(size)) {
-			shm_obj.truncate(sizeof(T));
-			boost::interprocess::mapped_region region(shm_obj, boost::interprocess::read_write);
-			object = new (region.get_address()) T(params ...);
+		if (sharedMemoryObject.get_size(size) && size == 0) {
+			owner = getpid();
+			sharedMemoryObject.truncate(sizeof(T));
+			mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, boost::interprocess::read_write);
+			object = new (mappedRegion.get_address()) T(params ...);
 		} else {
 			remap();
 		}
@@ -113,7 +115,7 @@ template <typename T> class USharedMemoryObject {
 	///
 	public: USharedMemoryObject(boost::interprocess::open_only_t, std::string name_)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object sharedMemoryObject(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_only, name.c_str(), boost::interprocess::read_write
 		);
 
@@ -125,7 +127,7 @@ template <typename T> class USharedMemoryObject {
 	///
 	public: USharedMemoryObject(boost::interprocess::open_read_only_t, std::string name_)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object shm_obj(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_only, name.c_str(), boost::interprocess::read_only
 		);
 
@@ -139,28 +141,40 @@ template <typename T> class USharedMemoryObject {
 		: name(std::move(rhs.name))
 		, sharedMemoryObject(std::move(rhs.sharedMemoryObject))
 		, mappedRegion(std::move(rhs.mappedRegion))
-		, object(rhs.object) {
+		, object(rhs.object)
+		, owner(rhs.owner) {
 		rhs.object = nullptr;
+		rhs.owner = 0;
 	}
 
+	///
+	/// The shared memory is removed when this is the instance which created it,
+	/// in the process which created it.
+	///
 	public: ~USharedMemoryObject() {
-		boost::interprocess::shared_memory_object::remove(name.c_str());
+		release();
 	}
 
 	///
 	/// Assign a shared memory object by moving from a previously created one.
 	///
 	public: USharedMemoryObject & operator = (USharedMemoryObject && rhs) noexcept {
-		name = std::move(rhs.name);
-		sharedMemoryObject = std::move(rhs.sharedMemoryObject);
-		mappedRegion = std::move(rhs.mappedRegion);
-		object = rhs.object;
-		rhs.object = nullptr;
+		if (this != &rhs) {
+			release();
+			name = std::move(rhs.name);
+			sharedMemoryObject = std::move(rhs.sharedMemoryObject);
+			mappedRegion = std::move(rhs.mappedRegion);
+			object = rhs.object;
+			owner = rhs.owner;
+			rhs.object = nullptr;
+			rhs.owner = 0;
+		}
+
 		return *this;
 	}
 
 	public: void remap() {
-		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, boost::interprocess::read_write);
+		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, sharedMemoryObject.get_mode());
 		object = (T *) mappedRegion.get_address();
 	}
 
@@ -198,10 +212,21 @@ template <typename T> class USharedMemoryObject {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	private: void release() {
+		if (object != nullptr && owner == getpid()) {
+			boost::interprocess::shared_memory_object::remove(name.c_str());
+		}
+
+		object = nullptr;
+	}
+
 	private: std::string name;
 	private: boost::interprocess::shared_memory_object sharedMemoryObject;
 	private: boost::interprocess::mapped_region mappedRegion;
 	protected: T * object = nullptr;
+
+	// The process that created the object, or zero if this instance did not create it.
+	private: pid_t owner = 0;
 };
 
 } // namespace Balau::Interprocess
-- 
2.43.0


From a505dc94c842537b84ff03ae6f8fc8b19c0155ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 041/125] fix: scope guards can be moved and do not run a
 function again that threw

---
 src/main/cpp/Balau/Type/MovableOnScopeExit.hpp | 18 ++++++++++++++----
 src/main/cpp/Balau/Type/OnScopeExit.hpp        |  4 +++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
index a7d8f85..e448108 100644
--- a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
+++ b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
@@ -60,14 +60,18 @@ class MovableOnScopeExit final {
 	/// Set to the function to NOP (cancels scheduled execution).
 	///
 	public: void clear() {
-		exiter->clear();
+		if (exiter) {
+			exiter->clear();
+		}
 	}
 
 	///
 	/// Execute the function now and then clear it.
 	///
 	public: void executeNow() {
-		exiter->executeNow();
+		if (exiter) {
+			exiter->executeNow();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -96,13 +100,19 @@ class MovableOnScopeExit final {
 			function = [] () {};
 		}
 
+		public: void reset(std::function<void ()> function_) override {
+			function = std::move(function_);
+		}
+
 		public: void executeNow() override {
-			function();
+			// The function is cleared first, as it must not run again on destruction if it throws.
+			std::function<void ()> function_ = std::move(function);
 			clear();
+			function_();
 		}
 
 		friend class MovableOnScopeExit;
-		private: FunctionT function;
+		private: std::function<void ()> function;
 	};
 
 	private: std::unique_ptr<ContainerBase> exiter;
diff --git a/src/main/cpp/Balau/Type/OnScopeExit.hpp b/src/main/cpp/Balau/Type/OnScopeExit.hpp
index 39ecef9..a2fbe62 100644
--- a/src/main/cpp/Balau/Type/OnScopeExit.hpp
+++ b/src/main/cpp/Balau/Type/OnScopeExit.hpp
@@ -72,8 +72,10 @@ class OnScopeExit final {
 	/// Execute the function now and then clear it.
 	///
 	public: void executeNow() {
-		function();
+		// The function is cleared first, as it must not run again on destruction if it throws.
+		std::function<void ()> function_ = std::move(function);
 		clear();
+		function_();
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From 3f0f013216cb7e7223ff013d4183a57b2bfaf191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 042/125] fix: terminating a child process ends it when it is
 running

---
 src/main/cpp/Balau/Concurrent/Fork.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Concurrent/Fork.hpp b/src/main/cpp/Balau/Concurrent/Fork.hpp
index 1e723aa..bfcb930 100644
--- a/src/main/cpp/Balau/Concurrent/Fork.hpp
+++ b/src/main/cpp/Balau/Concurrent/Fork.hpp
@@ -30,6 +30,7 @@
 #include <Balau/Dev/Assert.hpp>
 
 #include <boost/predef.h>
+#include <csignal>
 #include <sys/wait.h>
 
 namespace Balau::Concurrent {
@@ -290,12 +291,14 @@ class Fork {
 				}
 
 				default: {
-					kill(pid, SIGKILL);
 					break;
 				}
 			}
 		}
 
+		// The process is still running.
+		kill(pid, SIGKILL);
+
 		return TerminationReport();
 	}
 };
-- 
2.43.0


From 3107488952d972b56e911e36313f81033350013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 043/125] fix: zero, negative and non-finite values are printed
 with prefixes

---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 34 +++++++++++++------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 7e0c408..1874fb7 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -29,6 +29,9 @@
 #include <Balau/Exception/ContainerExceptions.hpp>
 #include <Balau/Util/DateTime.hpp>
 
+#include <cmath>
+#include <iomanip>
+
 namespace Balau::Util {
 
 ///
@@ -71,14 +74,8 @@ struct PrettyPrint final {
 	/// @param decimalPlaces the number of decimal places to print
 	///
 	template <typename T> static std::string metricPrefix(const T & value, size_t decimalPlaces) {
-		auto prefix = (int) std::floor(std::log10(value) / std::log10(1000.0));
-
-		if (prefix > 6) {
-			prefix = 6;
-		} else if (prefix < -6) {
-			prefix = -6;
-		}
-
+		const auto logarithm = logarithmOfMagnitude(value);
+		const int prefix = clampPrefix(std::floor(logarithm / std::log10(1000.0)));
 		const char * prefixChar = prefixes()[prefix + 6];
 		const long double multiplier = std::pow(1000.0, (long double) -prefix);
 		return fixed((long double) value * multiplier, decimalPlaces) + prefixChar;
@@ -94,14 +91,8 @@ struct PrettyPrint final {
 	/// @param decimalPlaces the number of decimal places to print
 	///
 	template <typename T> static std::string binaryPrefix(const T & value, const size_t decimalPlaces) {
-		auto prefix = (int) std::floor(std::log10((long double) value) / std::log10((long double) 1024.0));
-
-		if (prefix > 6) {
-			prefix = 6;
-		} else if (prefix < -6) {
-			prefix = -6;
-		}
-
+		const auto logarithm = logarithmOfMagnitude((long double) value);
+		const int prefix = clampPrefix(std::floor(logarithm / std::log10((long double) 1024.0)));
 		const char * prefixChar = prefixes()[prefix + 6];
 		const long double multiplier = std::pow(1024.0, (long double) -prefix);
 		return fixed((long double) value * multiplier, decimalPlaces) + prefixChar;
@@ -255,6 +246,17 @@ struct PrettyPrint final {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	// Zero and non-finite values have a logarithm of zero and thus no prefix.
+	private: template <typename T> static auto logarithmOfMagnitude(const T & value) {
+		using FloatT = std::conditional_t<std::is_floating_point<T>::value, T, long double>;
+		const FloatT magnitude = std::fabs((FloatT) value);
+		return magnitude == 0 || !std::isfinite(magnitude) ? (FloatT) 0 : std::log10(magnitude);
+	}
+
+	private: static int clampPrefix(long double prefix) {
+		return prefix > 6 ? 6 : prefix < -6 ? -6 : (int) prefix;
+	}
+
 	private: static size_t calculateGroupsPerLine(size_t lineLength, size_t groupSize) {
 		const size_t groupCharCount = groupSize * 2;
 
-- 
2.43.0


From e50ac2664f69540d37178798182cddba51856f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 044/125] fix: hexadecimal dumps print bytes above 0x7f with
 two digits and end without groups

---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 1874fb7..2ce5b44 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -195,13 +195,19 @@ struct PrettyPrint final {
 	///
 	static std::string printHexBytes(const char * ptr, size_t byteCount, size_t lineLength = 0, size_t groupSize = 0) {
 		std::ostringstream builder;
+
+		if (groupSize == 0) {
+			// No groups: each line is a single run of bytes.
+			groupSize = lineLength / 2;
+		}
+
 		const size_t groupsPerLine = calculateGroupsPerLine(lineLength, groupSize);
 
 		if (groupsPerLine == 0) {
 			// Return single line.
 
 			for (size_t m = 0; m < byteCount; m++) {
-				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[m];
+				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) (unsigned char) ptr[m];
 			}
 
 			return builder.str();
@@ -218,7 +224,7 @@ struct PrettyPrint final {
 						return builder.str();
 					}
 
-					builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[index++];
+					builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) (unsigned char) ptr[index++];
 				}
 
 				builder << " ";
@@ -229,7 +235,7 @@ struct PrettyPrint final {
 					return builder.str();
 				}
 
-				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[index++];
+				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) (unsigned char) ptr[index++];
 			}
 
 			builder << "\n";
@@ -260,7 +266,7 @@ struct PrettyPrint final {
 	private: static size_t calculateGroupsPerLine(size_t lineLength, size_t groupSize) {
 		const size_t groupCharCount = groupSize * 2;
 
-		if (groupCharCount > lineLength) {
+		if (groupCharCount == 0 || groupCharCount > lineLength) {
 			return 0;
 		}
 
-- 
2.43.0


From 7d752a1c80d57e9414c92701e71a5b8238daf2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 045/125] fix: negative, long and almost whole durations are
 printed correctly

---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 66 +++++++++++--------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 2ce5b44..e03bbc3 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -113,8 +113,6 @@ struct PrettyPrint final {
 	///
 	template <typename Rep, typename Period> static
 	std::string duration(std::chrono::duration<Rep, Period> d, const size_t decimalPlaces = 0) {
-		using Days = std::chrono::duration<int, std::ratio<86400>>;
-
 		long double totalSeconds = (long double) d.count() / (long double) Period::den * (long double) Period::num;
 
 		std::ostringstream builder;
@@ -124,49 +122,45 @@ struct PrettyPrint final {
 			totalSeconds = -totalSeconds;
 		}
 
-		const long double fraction = totalSeconds - (long double) (unsigned long long) totalSeconds;
-
 		if (totalSeconds == 0.0) {
 			return "0s";
-		} else if (totalSeconds < 60.0) {
+		} else if (totalSeconds < 60.0 || !std::isfinite(totalSeconds)) {
 			builder << metricPrefix(totalSeconds, decimalPlaces) <<  "s";
 			return builder.str();
-		} else if (totalSeconds < 60.0 * 60.0) { // print minutes::seconds.fraction
-			builder.fill('0');
-			auto minutes = std::chrono::duration_cast<std::chrono::minutes>(d);
-			d -= minutes;
-			auto seconds = std::chrono::duration_cast<std::chrono::seconds>(d);
-			builder << std::setw(2) << minutes.count() << "m"
-			        << std::setw(2) << seconds.count();
-		} else if (totalSeconds < 60.0 * 60.0 * 24.0) { // print hours::minutes::seconds.fraction
-			builder.fill('0');
-			auto hours = std::chrono::duration_cast<std::chrono::hours>(d);
-			d -= hours;
-			auto minutes = std::chrono::duration_cast<std::chrono::minutes>(d);
-			d -= minutes;
-			auto seconds = std::chrono::duration_cast<std::chrono::seconds>(d);
-			builder << std::setw(2) <<   hours.count() << "h"
-			        << std::setw(2) << minutes.count() << "m"
-			        << std::setw(2) << seconds.count();
-		} else { // print days::hours::minutes::seconds.fraction
-			builder.fill('0');
-			auto days = std::chrono::duration_cast<Days>(d);
-			d -= days;
-			auto hours = std::chrono::duration_cast<std::chrono::hours>(d);
-			d -= hours;
-			auto minutes = std::chrono::duration_cast<std::chrono::minutes>(d);
-			d -= minutes;
-			auto seconds = std::chrono::duration_cast<std::chrono::seconds>(d);
-			builder << std::setw(2) <<    days.count() << "d"
-			        << std::setw(2) <<   hours.count() << "h"
-			        << std::setw(2) << minutes.count() << "m"
-			        << std::setw(2) << seconds.count();
 		}
 
+		long double wholeSeconds = 0.0;
+		const long double fraction = std::modf(totalSeconds, &wholeSeconds);
+		std::string fractionText;
+
 		if (decimalPlaces != 0 && fraction != 0) {
-			builder << fixed(fraction, decimalPlaces).substr(1);
+			fractionText = fixed(fraction, decimalPlaces);
+
+			if (fractionText[0] == '1') { // The fraction was rounded up to the next second.
+				wholeSeconds += 1.0;
+			}
+
+			fractionText = fractionText.substr(1);
 		}
 
+		const auto secondsOfDay = (unsigned int) std::fmod(wholeSeconds, 86400.0L);
+		const long double days = std::round((wholeSeconds - secondsOfDay) / 86400.0L);
+		const unsigned int hours = secondsOfDay / 3600;
+		const unsigned int minutes = secondsOfDay / 60 % 60;
+		const unsigned int seconds = secondsOfDay % 60;
+
+		builder.fill('0');
+
+		if (days > 0.0) {
+			builder << std::setw(2) << fixed(days, 0) << "d";
+		}
+
+		if (days > 0.0 || hours > 0) {
+			builder << std::setw(2) << hours << "h";
+		}
+
+		builder << std::setw(2) << minutes << "m" << std::setw(2) << seconds << fractionText;
+
 		builder << "s";
 
 		return builder.str();
-- 
2.43.0


From 374b3a6987acd22f21581e4dd0b5fea3ad3270c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:57 +0000
Subject: [PATCH 046/125] fix: hashing a directory or a file that cannot be
 opened is refused

---
 src/main/cpp/Balau/Util/Hashing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Hashing.hpp b/src/main/cpp/Balau/Util/Hashing.hpp
index 22a3d78..35cb37b 100644
--- a/src/main/cpp/Balau/Util/Hashing.hpp
+++ b/src/main/cpp/Balau/Util/Hashing.hpp
@@ -219,13 +219,13 @@ struct Hashing final {
 	////////////////////////// Private implementation /////////////////////////
 
 	private: static std::unique_ptr<boost::filesystem::ifstream> getFileStream(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
 		auto stream = std::make_unique<boost::filesystem::ifstream>(file.getEntry(), std::ios::in | std::ios::binary);
 
-		if (!stream.get()) {
+		if (!*stream) {
 			ThrowBalauException(Exception::CouldNotOpenException, file.clone());
 		}
 
-- 
2.43.0


From e840250176c42aec750b13cee3abd3a09f58e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 047/125] fix: asking for a Keccak or SHA-3 digest does not
 change it

---
 src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h | 12 ++++++++++++
 src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h   | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h b/src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h
index 6c331dd..65e1652 100644
--- a/src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h
+++ b/src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h
@@ -105,6 +105,13 @@ class Keccak //: public Hash
 
 	/// return latest hash as hex characters
 	public: std::string getHash() {
+		// save old hash
+		uint64_t oldHash[StateSize];
+
+		for (unsigned int i = 0U; i < StateSize; i++) {
+			oldHash[i] = m_hash[i];
+		}
+
 		// process remaining bytes
 		processBuffer();
 
@@ -138,6 +145,11 @@ class Keccak //: public Hash
 			processed += 8;
 		}
 
+		// restore old hash
+		for (unsigned int i = 0U; i < StateSize; i++) {
+			m_hash[i] = oldHash[i];
+		}
+
 		return result;
 	}
 
diff --git a/src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h b/src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h
index 52208d0..3e390fd 100644
--- a/src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h
+++ b/src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h
@@ -110,6 +110,13 @@ class SHA3 //: public Hash
 
 	/// return latest hash as hex characters
 	public: std::string getHash() {
+		// save old hash
+		uint64_t oldHash[StateSize];
+
+		for (unsigned int i = 0U; i < StateSize; i++) {
+			oldHash[i] = m_hash[i];
+		}
+
 		// process remaining bytes
 		processBuffer();
 
@@ -143,6 +150,11 @@ class SHA3 //: public Hash
 			processed += 8U;
 		}
 
+		// restore old hash
+		for (unsigned int i = 0U; i < StateSize; i++) {
+			m_hash[i] = oldHash[i];
+		}
+
 		return result;
 	}
 
-- 
2.43.0


From 788513ed85041680b298fe6383fce8821c9327cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 048/125] fix: an unzipper that was never opened is not open

---
 src/main/cpp/Balau/Util/Zip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 4d0e60e..0686c74 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -752,7 +752,7 @@ class Unzipper {
 		ThrowBalauException(Exception::ZipException, errorMessage + ": " + std::string(errorString) + ".", path);
 	}
 
-	protected: void * archive;
+	protected: void * archive = nullptr;
 	protected: Resource::File path;
 };
 
-- 
2.43.0


From 32855a4ee39c05106f6333c0246e9118bfeb32d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 049/125] fix: reading a zip entry as a string does not overrun
 the buffer

---
 src/main/cpp/Balau/Util/Zip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 0686c74..b6d7ea1 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -637,7 +637,7 @@ class Unzipper {
 		std::array<char, 1024 * 2> buffer {};
 
 		while (bytesRemaining > 0) {
-			long long bytesRead = zip_fread(zipFile, buffer.data(), bytesRemaining);
+			long long bytesRead = zip_fread(zipFile, buffer.data(), std::min(bytesRemaining, (long long) buffer.size()));
 
 			if (bytesRead < 0) {
 				// TODO check that this is the right thing to do.
-- 
2.43.0


From 970935691d038966e9fcfb68dafdc31f9e6bd728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 050/125] fix: reading a zip entry that ends early is refused

---
 src/main/cpp/Balau/Util/Zip.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index b6d7ea1..f2ec5cd 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -594,7 +594,8 @@ class Unzipper {
 		while (bytesRemaining > 0) {
 			long long bytesRead = zip_fread(zipFile, data, bytesRemaining);
 
-			if (bytesRead < 0) {
+			// The end before all bytes were read is also an error.
+			if (bytesRead <= 0) {
 				// TODO check that this is the right thing to do.
 				if (cleanName.empty()) {
 					throwZipException("Could not read data for entry with index " + ::toString(info.index));
@@ -639,7 +640,8 @@ class Unzipper {
 		while (bytesRemaining > 0) {
 			long long bytesRead = zip_fread(zipFile, buffer.data(), std::min(bytesRemaining, (long long) buffer.size()));
 
-			if (bytesRead < 0) {
+			// The end before all bytes were read is also an error.
+			if (bytesRead <= 0) {
 				// TODO check that this is the right thing to do.
 				if (cleanName.empty()) {
 					throwZipException("Could not read data for entry with index " + ::toString(info.index));
-- 
2.43.0


From 952c7a6cc10540102ec3acfa27e10d6b9127fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 051/125] fix: zip entries are not looked up by index when no
 archive is open

---
 src/main/cpp/Balau/Util/Zip.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index f2ec5cd..972ec4d 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -369,6 +369,7 @@ class Unzipper {
 		try {
 			getEntryInfo(index, info);
 		} catch (const Exception::ZipException & e) {
+			Impl::ZipUtilities<>::checkOpen(*this);
 			throwZipException("Could not get entry info for entry with index " + ::toString(index));
 		}
 
@@ -409,6 +410,7 @@ class Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void getEntryInfo(long long index, ZipEntryInfo & info) const {
+		Impl::ZipUtilities<>::checkOpen(*this);
 		zip_stat_t sb {};
 
 		if (zip_stat_index(Impl::ZipUtilities<>::cast(archive), index, 0, &sb) < 0) {
@@ -454,6 +456,7 @@ class Unzipper {
 	/// @throw ZipException if the entry comment could not be obtained
 	///
 	public: std::string readEntryComment(long long index) const {
+		Impl::ZipUtilities<>::checkOpen(*this);
 		const char * comment = zip_file_get_comment(
 			Impl::ZipUtilities<>::cast(archive)
 			, index
-- 
2.43.0


From 8f7abe497125a7b5da7951dd3582ea6c2d6aea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 052/125] fix: renaming and deleting a zip directory applies to
 the entries in it

---
 src/main/cpp/Balau/Util/Zip.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 972ec4d..8f1b1cf 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -320,6 +320,10 @@ class Unzipper {
 
 		for (long long m = 0; m < count; m++) {
 			if (zip_stat_index(Impl::ZipUtilities<>::cast(archive), m, 0, &sb) != 0) {
+				if (zip_error_code_zip(zip_get_error(Impl::ZipUtilities<>::cast(archive))) == ZIP_ER_DELETED) {
+					continue; // The entry was deleted in this transaction.
+				}
+
 				throwZipException("Could not read information for entry number " + ::toString(m));
 			}
 
@@ -1050,7 +1054,7 @@ class Zipper : public Unzipper {
 		for (auto & entryName : names) {
 			if (Strings::startsWith(entryName, cleanName)) {
 				std::string newEntryName = newCleanName + entryName.substr(cleanName.length());
-				renameFile(cleanName, newEntryName);
+				renameFile(entryName, newEntryName);
 			}
 		}
 	}
@@ -1070,7 +1074,7 @@ class Zipper : public Unzipper {
 
 		for (auto & entryName : names) {
 			if (Strings::startsWith(entryName, cleanName)) {
-				deleteFile(cleanName);
+				deleteFile(entryName);
 			}
 		}
 	}
-- 
2.43.0


From 6470a11e977d4f3e519d115d56bc0a46d689cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 053/125] fix: data put into a zip archive is copied until the
 commit

---
 src/main/cpp/Balau/Util/Zip.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 8f1b1cf..12b0984 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -905,7 +905,7 @@ class Zipper : public Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void putEntry(const std::string & name, const std::vector<char> & bytes) {
-		putEntry(name, [&bytes, this] () { return zip_source_buffer(Impl::ZipUtilities<>::cast(archive), bytes.data(), bytes.size(), 0); });
+		putEntry(name, [&bytes, this] () { return createBufferSource(bytes.data(), bytes.size()); });
 	}
 
 	///
@@ -920,7 +920,7 @@ class Zipper : public Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void putEntry(const std::string & name, const std::string & bytes) {
-		putEntry(name, [&bytes, this] () { return zip_source_buffer(Impl::ZipUtilities<>::cast(archive), bytes.c_str(), bytes.length(), 0); });
+		putEntry(name, [&bytes, this] () { return createBufferSource(bytes.data(), bytes.length()); });
 	}
 
 	///
@@ -1022,6 +1022,24 @@ class Zipper : public Unzipper {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	// Create a source with its own copy of the bytes, as they are read when the transaction is committed.
+	private: zip_source * createBufferSource(const char * bytes, size_t length) {
+		void * const copy = ::malloc(length == 0 ? 1 : length);
+
+		if (copy == nullptr) {
+			return nullptr;
+		}
+
+		std::copy(bytes, bytes + length, (char *) copy);
+		zip_source * const source = zip_source_buffer(Impl::ZipUtilities<>::cast(archive), copy, length, 1);
+
+		if (source == nullptr) {
+			::free(copy);
+		}
+
+		return source;
+	}
+
 	// Common implementation for putEntry methods.
 	private: template <typename SourceFunctionT> void putEntry(const std::string & name, SourceFunctionT getSource) {
 		Impl::ZipUtilities<>::checkOpen(*this);
-- 
2.43.0


From 84991a3c60b87a433367d4443a854eb325181b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 054/125] fix: a moved zip file keeps its password

---
 src/main/cpp/Balau/Resource/ZipFile.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Resource/ZipFile.hpp b/src/main/cpp/Balau/Resource/ZipFile.hpp
index f826863..6f138bc 100644
--- a/src/main/cpp/Balau/Resource/ZipFile.hpp
+++ b/src/main/cpp/Balau/Resource/ZipFile.hpp
@@ -209,7 +209,8 @@ class ZipFile : public File {
 	/// Create a new zip file by moving the contents of the supplied instance.
 	///
 	public: ZipFile(ZipFile && zipFile) noexcept
-		: File(std::move(zipFile)) {}
+		: File(std::move(zipFile))
+		, password(std::move(zipFile.password)) {}
 
 	///
 	/// Assign the zip file by copying the supplied instance.
-- 
2.43.0


From a38f709acfffbfa4ff16eae987a7ff0c37ea32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 055/125] fix: reading a damaged zip entry is refused

---
 src/main/cpp/Balau/Util/Zip.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 12b0984..4f97f7c 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -615,6 +615,8 @@ class Unzipper {
 			bytesRemaining -= bytesRead;
 		}
 
+		checkEndOfEntry(zipFile, info);
+
 		return bytes;
 	}
 
@@ -662,9 +664,24 @@ class Unzipper {
 			bytesRemaining -= bytesRead;
 		}
 
+		checkEndOfEntry(zipFile, info);
+
 		return str;
 	}
 
+	// The checksum of the entry's data is verified by LibZip when the end is read.
+	private: void checkEndOfEntry(zip_file_t * zipFile, const ZipEntryInfo & info) const {
+		char next;
+
+		if (zip_fread(zipFile, &next, 1) != 0) {
+			ThrowBalauException(
+				Exception::ZipException
+			, "The data of the entry with index " + ::toString(info.index) + " is damaged."
+			, path
+			);
+		}
+	}
+
 	// Used in the cleanUpName method.
 	protected: enum class EntryType {
 		Directory, File, Either
-- 
2.43.0


From e2ed92a093167f4ab130713d8dd983124be7fd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 056/125] fix: a gunzip stream owns the file that it reads

---
 src/main/cpp/Balau/Util/Compression.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Compression.hpp b/src/main/cpp/Balau/Util/Compression.hpp
index afabcb2..c9d02a3 100644
--- a/src/main/cpp/Balau/Util/Compression.hpp
+++ b/src/main/cpp/Balau/Util/Compression.hpp
@@ -36,7 +36,12 @@
 #include <iosfwd>
 #include <sstream>
 
+#include <boost/filesystem/fstream.hpp>
+#include <boost/iostreams/copy.hpp>
+#include <boost/iostreams/device/file.hpp>
+#include <boost/iostreams/filter/gzip.hpp>
 #include <boost/iostreams/filtering_stream.hpp>
+#include <boost/iostreams/filtering_streambuf.hpp>
 
 namespace Balau {
 
@@ -131,11 +136,17 @@ struct GZip final {
 	/// @return an input stream wrapper supplying a uncompressed stream
 	///
 	static void gunzip(const Resource::File & input, std::unique_ptr<std::istream> & stream) {
-		boost::filesystem::ifstream inputStream(input.getEntry(), std::ios::binary);
-		stream = std::make_unique<boost::iostreams::filtering_istream>();
-		auto * filterStream = static_cast<boost::iostreams::filtering_istream *>(stream.get());
+		// The source is copied into the stream, which thus owns the opened file.
+		boost::iostreams::file_source source(input.toRawString(), std::ios::in | std::ios::binary);
+
+		if (!source.is_open()) {
+			ThrowBalauException(Exception::CouldNotOpenException, input.clone());
+		}
+
+		auto filterStream = std::make_unique<boost::iostreams::filtering_istream>();
 		filterStream->push(boost::iostreams::gzip_decompressor());
-		filterStream->push(inputStream);
+		filterStream->push(source);
+		stream = std::move(filterStream);
 	}
 
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 06a78ee809f2524d446c1f7c334ff7d3f101ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 057/125] fix: compressing and decompressing files that cannot
 be opened is refused

---
 src/main/cpp/Balau/Util/Compression.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Compression.hpp b/src/main/cpp/Balau/Util/Compression.hpp
index c9d02a3..7e2f190 100644
--- a/src/main/cpp/Balau/Util/Compression.hpp
+++ b/src/main/cpp/Balau/Util/Compression.hpp
@@ -58,11 +58,13 @@ struct GZip final {
 	/// @param output the file to write the gzipped stream to
 	///
 	static void gzip(const Resource::File & input, const Resource::File & output) {
+		boost::filesystem::ifstream in(input.getEntry(), std::ios::binary);
+		checkOpened(in.is_open(), input);
 		boost::filesystem::ofstream out(output.getEntry(), std::ios::binary);
+		checkOpened(out.is_open(), output);
 		boost::iostreams::filtering_streambuf<boost::iostreams::output> filter;
 		filter.push(boost::iostreams::gzip_compressor());
 		filter.push(out);
-		boost::filesystem::ifstream in(input.getEntry(), std::ios::binary);
 		boost::iostreams::copy(in, filter);
 	}
 
@@ -74,6 +76,7 @@ struct GZip final {
 	///
 	static void gzip(const std::string & input, const Resource::File & output) {
 		boost::filesystem::ofstream out(output.getEntry(), std::ios::binary);
+		checkOpened(out.is_open(), output);
 		boost::iostreams::filtering_streambuf<boost::iostreams::output> filter;
 		filter.push(boost::iostreams::gzip_compressor());
 		filter.push(out);
@@ -89,6 +92,7 @@ struct GZip final {
 	///
 	static void gzip(std::istream & input, const Resource::File & output) {
 		boost::filesystem::ofstream out(output.getEntry(), std::ios::binary);
+		checkOpened(out.is_open(), output);
 		boost::iostreams::filtering_streambuf<boost::iostreams::output> filter;
 		filter.push(boost::iostreams::gzip_compressor());
 		filter.push(out);
@@ -103,10 +107,12 @@ struct GZip final {
 	///
 	static void gunzip(const Resource::File & input, const Resource::File & output) {
 		boost::filesystem::ifstream in(input.getEntry(), std::ios::binary);
+		checkOpened(in.is_open(), input);
 		boost::iostreams::filtering_streambuf<boost::iostreams::input> filter;
 		filter.push(boost::iostreams::gzip_decompressor());
 		filter.push(in);
 		boost::filesystem::ofstream out(output.getEntry(), std::ios::binary);
+		checkOpened(out.is_open(), output);
 		boost::iostreams::copy(filter, out);
 	}
 
@@ -121,6 +127,7 @@ struct GZip final {
 	///
 	static void gunzip(const Resource::File & input, std::string & output) {
 		boost::filesystem::ifstream in(input.getEntry(), std::ios::binary);
+		checkOpened(in.is_open(), input);
 		boost::iostreams::filtering_streambuf<boost::iostreams::input> filter;
 		filter.push(boost::iostreams::gzip_decompressor());
 		filter.push(in);
@@ -138,11 +145,7 @@ struct GZip final {
 	static void gunzip(const Resource::File & input, std::unique_ptr<std::istream> & stream) {
 		// The source is copied into the stream, which thus owns the opened file.
 		boost::iostreams::file_source source(input.toRawString(), std::ios::in | std::ios::binary);
-
-		if (!source.is_open()) {
-			ThrowBalauException(Exception::CouldNotOpenException, input.clone());
-		}
-
+		checkOpened(source.is_open(), input);
 		auto filterStream = std::make_unique<boost::iostreams::filtering_istream>();
 		filterStream->push(boost::iostreams::gzip_decompressor());
 		filterStream->push(source);
@@ -151,7 +154,13 @@ struct GZip final {
 
 	///////////////////////////////////////////////////////////////////////////
 
-	GZip() = delete;
+	private: static void checkOpened(bool opened, const Resource::File & file) {
+		if (!opened) {
+			ThrowBalauException(Exception::CouldNotOpenException, file.clone());
+		}
+	}
+
+	public: GZip() = delete;
 	GZip(const GZip &) = delete;
 	GZip & operator = (const GZip &) = delete;
 };
-- 
2.43.0


From f7d399b73c2b77a36577e52df78fcdd54ff12dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 058/125] fix: iterators of a zip file use its password

---
 src/main/cpp/Balau/Resource/ZipFile.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/ZipFile.hpp b/src/main/cpp/Balau/Resource/ZipFile.hpp
index 6f138bc..9e5ffd0 100644
--- a/src/main/cpp/Balau/Resource/ZipFile.hpp
+++ b/src/main/cpp/Balau/Resource/ZipFile.hpp
@@ -267,7 +267,7 @@ class ZipFile : public File {
 	}
 
 	public: std::unique_ptr<RecursiveUriIterator> recursiveIterator() const override {
-		return std::unique_ptr<RecursiveUriIterator>(new RecursiveZipFileUriIterator(*this, false, ""));
+		return std::unique_ptr<RecursiveUriIterator>(new RecursiveZipFileUriIterator(*this, false, password));
 	}
 
 	public: std::unique_ptr<UriIterator> iterator() const override {
@@ -282,7 +282,7 @@ class ZipFile : public File {
 	/// @param pw     the archive's password if encryption was used when writing
 	///
 	public: RecursiveZipFileIterator recursiveZipFileIterator(bool verify = false, const std::string & pw = "") {
-		return RecursiveZipFileIterator(*this, verify, pw);
+		return RecursiveZipFileIterator(*this, verify, pw.empty() ? password : pw);
 	}
 
 	///
-- 
2.43.0


From ccfebe38d22c538fef637ed4832234994c1a6594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 059/125] fix: missing parents of an existing zip directory are
 created

---
 src/main/cpp/Balau/Util/Zip.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 4f97f7c..13bf5a2 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -875,11 +875,6 @@ class Zipper : public Unzipper {
 		}
 
 		const std::string cleanName = cleanUpName(name, EntryType::Directory);
-
-		if (hasEntry(cleanName)) {
-			return;
-		}
-
 		const std::string cleanNameNoEndSlash = cleanName.substr(0, cleanName.length() - 1);
 		const std::vector<std::string_view> components = Strings::split(cleanNameNoEndSlash, "/");
 		std::string directoryComponents;
-- 
2.43.0


From 10289f66895c5c2b9580e4f27754bd58e8eb8277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:56 +0000
Subject: [PATCH 060/125] fix: entry names after deletion of a new zip entry in
 its transaction

---
 src/main/cpp/Balau/Util/Zip.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 13bf5a2..51e244a 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -320,8 +320,10 @@ class Unzipper {
 
 		for (long long m = 0; m < count; m++) {
 			if (zip_stat_index(Impl::ZipUtilities<>::cast(archive), m, 0, &sb) != 0) {
-				if (zip_error_code_zip(zip_get_error(Impl::ZipUtilities<>::cast(archive))) == ZIP_ER_DELETED) {
-					continue; // The entry was deleted in this transaction.
+				const int error = zip_error_code_zip(zip_get_error(Impl::ZipUtilities<>::cast(archive)));
+
+				if (error == ZIP_ER_DELETED || error == ZIP_ER_INVAL) {
+					continue; // An existing or a new entry was deleted in this transaction.
 				}
 
 				throwZipException("Could not read information for entry number " + ::toString(m));
-- 
2.43.0


From 055c5f2868e1b692fcb15f25abf4c060ba8c3cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 061/125] fix: parsing a second command line does not keep the
 final values of the first

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index ce26fba..ff0f9ae 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -234,6 +234,7 @@ template <typename KeyT> class CommandLine {
 		using ::toString;
 
 		parsedValuesByKey.clear();
+		finalValues.clear();
 
 		if (args.empty() || (ignoreFirst && args.size() == 1)) {
 			if (commandLineHasFinalValue == HasFinalValue::Yes) {
-- 
2.43.0


From 539a47f9a12f094f6cac8d01eedbdafc724a8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 062/125] fix: equals style command lines do not read beyond
 the arguments, and accept an optional final value

---
 .../cpp/Balau/Application/CommandLine.hpp     | 54 ++++++++++---------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index ff0f9ae..f68f7af 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -676,27 +676,24 @@ template <typename KeyT> class CommandLine {
 	                                     bool ignoreFirst) {
 		using ::toString;
 
-		std::vector<std::string> cleanedArgs;
-		size_t m = ignoreFirst ? 1 : 0;
-
-		while (m < args.size()) {
-			const std::string & arg = args[m];
-
-			if (Util::Strings::contains(arg, "=")) {
-				const size_t first = arg.find('=');
-				cleanedArgs.emplace_back(arg.substr(0, first));
-				cleanedArgs.emplace_back(arg.substr(first + 1));
-			} else {
-				cleanedArgs.emplace_back(arg);
+		for (size_t m = ignoreFirst ? 1 : 0; m < args.size(); m++) {
+			const std::string arg = toString(Util::Strings::trim(args[m]));
+			const size_t equals = arg.find('=');
+			const std::string optionSwitch = toString(Util::Strings::trim(arg.substr(0, equals)));
+			const auto iter = keysBySwitch.find(optionSwitch);
+
+			if (m + 1 == args.size()) {
+				// The last argument is the final value if there is one.
+				const bool isValue = commandLineHasFinalValue == HasFinalValue::Yes
+					? equals == std::string::npos || iter == keysBySwitch.end()
+					: commandLineHasFinalValue == HasFinalValue::Maybe && iter == keysBySwitch.end();
+
+				if (isValue) {
+					finalValues.push_back(arg);
+					return;
+				}
 			}
 
-			m++;
-		}
-
-		for (size_t m = 0; m < (commandLineHasFinalValue == HasFinalValue::Yes ? cleanedArgs.size() - 1 : cleanedArgs.size()); m++) {
-			const std::string optionSwitch = toString(Util::Strings::trim(cleanedArgs[m]));
-			auto iter = keysBySwitch.find(optionSwitch);
-
 			if (iter == keysBySwitch.end()) {
 				ThrowBalauException(Exception::OptionNotFoundException, optionSwitch);
 			}
@@ -705,21 +702,26 @@ template <typename KeyT> class CommandLine {
 			const auto & option = optionsByKey.at(key);
 
 			if (option.hasValue) {
-				if (commandLineHasFinalValue == HasFinalValue::Yes && cleanedArgs.size() - m < 2) {
-					ThrowBalauException(Exception::MissingFinalValueException, "");
-				} else if (cleanedArgs.size() - m < 1) {
+				if (equals != std::string::npos) {
+					parsedValuesByKey[key] = toString(Util::Strings::trim(arg.substr(equals + 1)));
+				} else if (m + 1 == args.size()) {
 					ThrowBalauException(Exception::MissingOptionValueException, optionSwitch);
+				} else {
+					m++;
+					parsedValuesByKey[key] = toString(Util::Strings::trim(args[m]));
 				}
-
-				m++;
-				parsedValuesByKey[key] = toString(Util::Strings::trim(cleanedArgs[m]));
+			} else if (equals != std::string::npos) {
+				ThrowBalauException(
+					  Exception::OptionValueException
+					, std::string("Option '" + optionSwitch + "' does not have a value: ") + arg
+				);
 			} else {
 				parsedValuesByKey[key] = "";
 			}
 		}
 
 		if (commandLineHasFinalValue == HasFinalValue::Yes) {
-			finalValues.push_back(toString(Util::Strings::trim(cleanedArgs.back())));
+			ThrowBalauException(Exception::MissingFinalValueException, "");
 		}
 	}
 
-- 
2.43.0


From ae625ff15eec62853b7f4adfc692195ce0706cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 063/125] fix: command line numbers with trailing text and
 negative unsigned numbers are refused

---
 .../cpp/Balau/Application/CommandLine.hpp     | 66 ++++++++++++-------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index f68f7af..3d31b9b 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -311,7 +311,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: short getOptionAsShort(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<short, int>(key, "a short integer", parse);
 	}
 
@@ -322,7 +322,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned short getOptionAsUnsignedShort(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned short, unsigned long long>(key, "an unsigned short integer", parse);
 	}
 
@@ -333,7 +333,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: int getOptionAsInt(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<int, int>(key, "an integer", parse);
 	}
 
@@ -344,7 +344,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned int getOptionAsUnsignedInt(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned int, unsigned long long>(key, "an unsigned integer", parse);
 	}
 
@@ -355,7 +355,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: long long getOptionAsLong(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoll(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoll(str, end); };
 		return getOptionAs<long long, long long>(key, "a long integer", parse);
 	}
 
@@ -366,7 +366,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned long long getOptionAsUnsignedLong(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned long long, unsigned long long>(key, "an unsigned long long integer", parse);
 	}
 
@@ -379,7 +379,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: short getOptionAsShortOrDefault(KeyT key, short defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<short, int>(key, "a short integer", parse, true, defaultValue);
 	}
 
@@ -390,7 +390,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned short getOptionAsUnsignedShortOrDefault(KeyT key, unsigned short defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned short, unsigned long long>(key, "an unsigned short integer", parse, true, defaultValue);
 	}
 
@@ -401,7 +401,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: int getOptionAsIntOrDefault(KeyT key, int defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<int, int>(key, "an integer", parse, true, defaultValue);
 	}
 
@@ -412,7 +412,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned int getOptionAsUnsignedIntOrDefault(KeyT key, unsigned int defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned int, unsigned long long>(key, "an unsigned integer", parse, true, defaultValue);
 	}
 
@@ -423,7 +423,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: long long getOptionAsLongOrDefault(KeyT key, long long defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoll(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoll(str, end); };
 		return getOptionAs<long long, long long>(key, "a long integer", parse, true, defaultValue);
 	}
 
@@ -434,7 +434,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned long long getOptionAsUnsignedLongOrDefault(KeyT key, unsigned long long defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned long long, unsigned long long>(key, "an unsigned long long integer", parse, true, defaultValue);
 	}
 
@@ -447,7 +447,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getOptionAsFloat(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getOptionAs<float, float>(key, "a single precision floating point value", parse);
 	}
 
@@ -458,7 +458,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getOptionAsDouble(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getOptionAs<double, double>(key, "a double precision floating point value", parse);
 	}
 
@@ -471,7 +471,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getOptionAsFloatOrDefault(KeyT key, float defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getOptionAs<float, float>(key, "a single precision floating point value", parse, true, defaultValue);
 	}
 
@@ -482,7 +482,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getOptionAsDoubleOrDefault(KeyT key, double defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getOptionAs<double, double>(key, "a double precision floating point value", parse, true, defaultValue);
 	}
 
@@ -515,7 +515,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getFinalValueAsFloat(size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getFinalValueAs<float>("a single precision floating point value", parse, index);
 	}
 
@@ -526,7 +526,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getFinalValueAsDouble(size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getFinalValueAs<double>("a double precision floating point value", parse, index);
 	}
 
@@ -550,7 +550,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getFinalValueAsFloatOrDefault(float defaultValue, size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getFinalValueAs<float>("a single precision floating point value", parse, index, true, defaultValue);
 	}
 
@@ -561,7 +561,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getFinalValueAsDoubleOrDefault(double defaultValue, size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getFinalValueAs<double>("a double precision floating point value", parse, index, true, defaultValue);
 	}
 
@@ -775,6 +775,24 @@ template <typename KeyT> class CommandLine {
 		}
 	}
 
+	//
+	// Convert the whole string. Text after the number and negative text for unsigned types are invalid.
+	//
+	private: template <typename C> static C parseAll(const std::string & str, C parse(const std::string &, size_t *)) {
+		if (std::is_unsigned<C>::value && Util::Strings::contains(str, "-")) {
+			throw std::out_of_range(str);
+		}
+
+		size_t end = 0;
+		const C value = parse(str, &end);
+
+		if (end != str.length()) {
+			throw std::invalid_argument(str);
+		}
+
+		return value;
+	}
+
 	//
 	// Option numeric conversion function.
 	//  - T is the required type.
@@ -782,7 +800,7 @@ template <typename KeyT> class CommandLine {
 	//
 	private: template<typename T, typename C> T getOptionAs(KeyT key,
 	                                                        const std::string & typeAsString,
-	                                                        C parse(const std::string &),
+	                                                        C parse(const std::string &, size_t *),
 	                                                        bool orDefault = false,
 	                                                        T defaultValue = T()) const {
 		if (parsedValuesByKey.find(key) == parsedValuesByKey.end()) {
@@ -801,7 +819,7 @@ template <typename KeyT> class CommandLine {
 		const std::string str = parsedValuesByKey.at(key);
 
 		try {
-			const C value = parse(str);
+			const C value = parseAll(str, parse);
 			return boost::numeric_cast<T>(value);
 		} catch (const std::invalid_argument &) {
 			using ::toString;
@@ -836,7 +854,7 @@ template <typename KeyT> class CommandLine {
 	//  - T is the required type.
 	//
 	private: template<typename T> T getFinalValueAs(const std::string & typeAsString,
-	                                                T parse(const std::string &),
+	                                                T parse(const std::string &, size_t *),
 	                                                size_t index,
 	                                                bool orDefault = false,
 	                                                T defaultValue = T()) const {
@@ -860,7 +878,7 @@ template <typename KeyT> class CommandLine {
 		}
 
 		try {
-			return parse(finalValues[index]);
+			return parseAll(finalValues[index], parse);
 		} catch (const std::invalid_argument &) {
 			ThrowBalauException(
 				Exception::OptionValueException, std::string("Final value is not " + typeAsString + ": " + finalValues[index])
-- 
2.43.0


From 4b2de7eca682f45dd86741a756c3c69315d1c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 064/125] fix: help text of an option without documentation
 ends its line

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index 3d31b9b..c8e8e4d 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -636,6 +636,10 @@ template <typename KeyT> class CommandLine {
 			size_t charactersWritten = 0;
 			bool first = true;
 
+			if (docText.empty()) {
+				builder << "\n";
+			}
+
 			while (charactersWritten < docText.length()) {
 				const size_t charactersRemaining = docText.length() - charactersWritten;
 
-- 
2.43.0


From 3c1e352504181e66b185cd0d958417a27af26d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:27 +0000
Subject: [PATCH 065/125] fix: log messages with fewer parameters than
 placeholders do not read beyond the parameters

---
 src/main/cpp/Balau/Logging/Logger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 98eac46..10e6c50 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -282,13 +282,14 @@ void Logger::logMessage(const SourceCodeLocation & location,
 	auto timePoint = System::SystemClock().now();
 	auto messageItems = textToMessageItems(message, parameterCount);
 	LoggerOStringStream messageTextStream;
+	LoggerStringVector replacementParameters;
 	const LoggerStringVector * finalParameters;
 
 	if (parameters.size() < parameterCount) {
 		// The logging message does not have enough parameters.
-		LoggerStringVector replacementParameters = parameters;
+		replacementParameters = parameters;
 
-		while (parameterCount < parameters.size()) {
+		while (replacementParameters.size() < parameterCount) {
 			replacementParameters.emplace_back("????");
 		}
 
-- 
2.43.0


From cac63d89380c98fa70b8b86703c62c408354cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:27 +0000
Subject: [PATCH 066/125] fix: parameterised log messages are not cut at a null
 character

---
 src/main/cpp/Balau/Logging/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 10e6c50..d7884f7 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -313,7 +313,7 @@ void Logger::logMessage(const SourceCodeLocation & location,
 		, logger.ns
 		, level
 		, location.location
-		, messageText.c_str()
+		, std::string_view(messageText.data(), messageText.length())
 		, timePoint
 	);
 
-- 
2.43.0


From c5a607f2338bc949466b79d358c99e04fd351eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:27 +0000
Subject: [PATCH 067/125] fix: the %filepath log item does not discard the rest
 of the message when there is no location

---
 src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
index 15396ac..d21dfdd 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
@@ -203,7 +203,9 @@ class FilenameLoggerItem : public LogItem {
 // The full path of the file in which the log message is found.
 class FilePathLoggerItem : public LogItem {
 	public: void write(LoggerItemParameters & parameters) const override {
-		parameters.builder << parameters.location;
+		if (parameters.location != nullptr) {
+			parameters.builder << parameters.location;
+		}
 	}
 };
 
-- 
2.43.0


From 9cc7743eb4583a2bdd10557041a33ed608f9b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:50 +0000
Subject: [PATCH 068/125] fix: a logging file that cannot be opened is an
 exception of the configure call, not the end of the process

---
 src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
index 10e07f3..356d9ae 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
@@ -44,6 +44,9 @@ FileLoggingStream::FileLoggingStream(std::shared_ptr<System::Clock> clock_, std:
 	, pathComponents(Util::Vectors::toStringVector(Strings::split(uri, dateRegEx, false)))
 	, running(Strings::occurrences(uri, dateRegEx) == 0) {
 
+	// Create the stream in this thread, in order that a failure is thrown to the caller.
+	createNewStream();
+
 	// Only run the updater thread if the URI contains date placeholders.
 	if (running) {
 		std::unique_lock<std::mutex> lock(syncMutex);
@@ -167,8 +170,6 @@ void FileLoggingStream::createNewStream() {
 void FileLoggingStream::updateFunction(FileLoggingStream * const self) {
 	std::unique_lock<std::mutex> lock(self->syncMutex);
 
-	self->createNewStream();
-
 	// Prep the constructor for unlock.
 	// The constructor will unlock when wait is entered in this thread.
 	self->syncCondition.notify_all();
-- 
2.43.0


From acf4e093dfa0a3ce130295ee9cfd902a341c832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:50 +0000
Subject: [PATCH 069/125] fix: the fallback for an invalid logging
 configuration file has streams and a format

---
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 1153364..efc6c3c 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -408,7 +408,9 @@ LoggerTree LoggingState::autoConfigure() noexcept {
 	// If the normal configuration failed, try to create a fallback default configuration.
 	// This should only fail due to fatal out of memory issues.
 	try {
-		return createDefaultConfiguration();
+		LoggerTree theLoggers = createDefaultConfiguration();
+		configureLoggers(theLoggers);
+		return theLoggers;
 	} catch (const std::exception & e) {
 		fprintf(stderr, "FATAL: Attempt to create default logging configuration failed:\n"); // NOLINT
 		fprintf(stderr, "FATAL: %s\n", e.what()); // NOLINT
-- 
2.43.0


From d0e6f41db33359e246052f2ea0f991ec1b35f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:50 +0000
Subject: [PATCH 070/125] fix: include directives in logging configurations do
 not access an empty stack

---
 src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp | 3 ++-
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp          | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
index c8d7097..9bcc31c 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
@@ -33,8 +33,9 @@ class LoggerPropertyVisitor : private Lang::Property::PropertyVisitor {
 		LoggerTreeNode * currentLoggerTreeNode = nullptr;
 	};
 
-	public: LoggerTree visit(const Lang::Property::AST::Properties & properties) {
+	public: LoggerTree visit(const Lang::Property::AST::Properties & properties, std::shared_ptr<Resource::Uri> uri) {
 		LoggerPropertyAstPayload payload;
+		uris.push(std::move(uri));
 		visit(payload, properties);
 		return payload.loggerTree;
 	}
diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index efc6c3c..a85ed8d 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -912,7 +912,7 @@ LoggerTree LoggingState::parseConfiguration(const std::string & configurationTex
 	Resource::StringUri input(configurationText);
 	Lang::Property::AST::Properties properties = Lang::Property::PropertyParserService::parse(input);
 	LoggerPropertyVisitor visitor;
-	return visitor.visit(properties);
+	return visitor.visit(properties, input.clone());
 }
 
 LoggerTree LoggingState::parseConfiguration(const std::unique_ptr<EnvironmentProperties> & configuration) {
-- 
2.43.0


From b495c8c3397505a17247573adf84cbbc01691dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:50 +0000
Subject: [PATCH 071/125] fix: loggers with their own stream options do not
 inherit stream options

---
 .../cpp/Balau/Logging/Impl/LoggingState.cpp   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index a85ed8d..fe05dab 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -664,16 +664,18 @@ void LoggingState::propagateConfiguration(LoggerTree & theLoggers) {
 			Logger & parentLogger = *parent->value.getLogger();
 			auto & parentProps = parentLogger.properties;
 
+			// Special treatment is required for stream properties.
+			// Do not propagate the parent's stream properties if
+			// there is a single stream property in the child.
+			const bool hasStreams = std::any_of(
+				  loggerProps.begin()
+				, loggerProps.end()
+				, [&streamStr] (const auto & loggerProp) { return Strings::endsWith(loggerProp.first, streamStr); }
+			);
+
 			for (auto & parentProp : parentProps) {
-				if (Strings::endsWith(parentProp.first, streamStr)) {
-					// Special treatment is required for stream properties.
-					// Do not propagate the parent's stream properties if
-					// there is a single stream property in the child.
-					for (auto & loggerProp : loggerProps) {
-						if (Strings::endsWith(loggerProp.first, streamStr)) {
-							continue;
-						}
-					}
+				if (hasStreams && Strings::endsWith(parentProp.first, streamStr)) {
+					continue;
 				}
 
 				if (loggerProps.find(parentProp.first) == loggerProps.end()) {
-- 
2.43.0


From 764712ebb0de2540b0857bfcec12b16b6163d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:50 +0000
Subject: [PATCH 072/125] fix: logging calls see the stream that a
 reconfiguration created

---
 src/main/cpp/Balau/Logging/Logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index d7884f7..f4c335f 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -234,7 +234,7 @@ void Logger::logMessage(const SourceCodeLocation & location,
                         std::string_view message) {
 	// Apart from compiler ordering restrictions, these atomic reads are free on x86/x64.
 	const LogItemVector * const loggerItems = logger.logItems.load(std::memory_order_acquire);
-	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_relaxed);
+	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_acquire);
 
 	if (loggerItems == nullptr || stream == nullptr) {
 		return; // The logging system has not yet configured the logger.
@@ -272,7 +272,7 @@ void Logger::logMessage(const SourceCodeLocation & location,
                         const LoggerStringVector & parameters) {
 	// Apart from compiler ordering restrictions, these atomic reads are free on x86/x64.
 	const LogItemVector * const loggerItems = logger.logItems.load(std::memory_order_acquire);
-	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_relaxed);
+	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_acquire);
 
 	if (loggerItems == nullptr || stream == nullptr) {
 		return; // The logging system has not yet configured the logger.
-- 
2.43.0


From 265c95ed053115efe63bc4037bdafa583bebb67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:55 +0000
Subject: [PATCH 073/125] fix: Logger::getConfiguration obtains the logging
 lock, as documented

---
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp | 15 +++++++++++++++
 src/main/cpp/Balau/Logging/Impl/LoggingState.hpp |  3 +++
 src/main/cpp/Balau/Logging/Logger.cpp            | 12 +-----------
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index fe05dab..f9e778c 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -223,6 +223,21 @@ void LoggingState::flushAll() {
 	performFlushAll();
 }
 
+std::string LoggingState::getConfiguration(const Logger & logger) {
+	std::lock_guard<std::mutex> lock(loggingStateHolder().mutex);
+	std::ostringstream stream;
+
+	stream << logger.nameSpace << " {\n";
+
+	for (const auto & property : logger.properties) {
+		stream << "    " << property.first << " = " << property.second << "\n";
+	}
+
+	stream << "}\n";
+
+	return stream.str();
+}
+
 void LoggingState::configure(std::string_view configurationText,
                              const std::map<std::string, std::string> & placeholders) {
 	std::lock_guard<std::mutex> lock(loggingStateHolder().mutex);
diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
index 5d19941..21a8e29 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
@@ -64,6 +64,9 @@ class LoggingState final {
 	// Flush all logging streams.
 	void flushAll();
 
+	// Get the configuration of the supplied logger as text.
+	std::string getConfiguration(const Logger & logger);
+
 	// Reconfigure the logging system from the supplied configuration text.
 	void configure(std::string_view configurationText, const std::map<std::string, std::string> & placeholders);
 
diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index f4c335f..5500233 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -78,17 +78,7 @@ void Logger::lockConfiguration(bool throwOnReconfigure) {
 }
 
 std::string Logger::getConfiguration() const {
-	std::ostringstream stream;
-
-	stream << nameSpace << " {\n";
-
-	for (const auto & property : properties) {
-		stream << "    " << property.first << " = " << property.second << "\n";
-	}
-
-	stream << "}\n";
-
-	return stream.str();
+	return LoggingState::loggingSystemState().getConfiguration(*this);
 }
 
 void Logger::registerLoggingStreamFactory(const std::string & scheme, LoggingStreamFactory factory) {
-- 
2.43.0


From 80ddea7f976c69c021cb392baab1f9bed9820ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 074/125] fix: the abbreviated namespace of a logger created as
 a parent does not abbreviate its own name

---
 src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
index 9213025..a82d1ca 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
@@ -103,7 +103,7 @@ class LoggerConfigurationVisitor {
 			for (size_t m = 0; m < nameSpace.size(); m++) {
 				std::string identifier = std::string(nameSpace[m]);
 				nameSpaceStr += prefix + identifier;
-				std::string thisNs = ns + prefix + (m < nameSpace.size() - 1 ? identifier.substr(0, 1) : identifier);
+				std::string thisNs = ns + prefix + identifier;
 				ns += prefix + identifier.substr(0, 1);
 				prefix = ".";
 				loggerTreeNode = &loggerTreeNode->findOrAddChild(
-- 
2.43.0


From 03782f6c125229255a9ae6dce6dc90957797812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 075/125] fix: injector callbacks registered by configurations
 are stored in constructed lists

---
 src/main/cpp/Balau/Application/Injector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 65f02a7..1b808f1 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1735,14 +1735,14 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		return builder.str();
 	}
 
-	// Main injector state.
-	private: const std::shared_ptr<const Injector> parent;
-	private: const std::shared_ptr<const Impl::BindingMap> bindings;
-
-	// Data structures for callbacks.
+	// Data structures for callbacks (declared before the bindings, as they are populated during binding creation).
 	private: mutable std::list<std::function<void (const Injector& )>> postConstructionCalls;
 	private: mutable std::list<std::function<void ()>> preDestructionCalls;
 	private: mutable std::recursive_mutex callSync;
+
+	// Main injector state.
+	private: const std::shared_ptr<const Injector> parent;
+	private: const std::shared_ptr<const Impl::BindingMap> bindings;
 };
 
 } // namespace Balau
-- 
2.43.0


From 48c5cd5bb13b1d2ff2220650e976d2edc0867576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:35 +0000
Subject: [PATCH 076/125] fix: static singletons registered by configurations
 are set up

---
 src/main/cpp/Balau/Application/ApplicationConfiguration.hpp | 5 ++++-
 src/main/cpp/Balau/Application/Injector.hpp                 | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
index ff5de47..921d929 100644
--- a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
@@ -99,7 +99,10 @@ class ApplicationConfiguration : public InjectorConfiguration {
 	/// @param name an optional binding name
 	///
 	protected: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		staticSingletonPostConstructionCalls.emplace_back(new StaticSingletonRegistration<T>(ptrPtr, name));
+		// The call is generic because the injector class is not complete here.
+		postConstructionCalls.push_back(
+			[ptrPtr, name = std::string(name)] (const auto & injector) { *ptrPtr = injector.template getShared<T>(name); }
+		);
 		preDestructionCalls.push_back([ptrPtr] () { ptrPtr->reset(); });
 	}
 
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 1b808f1..7b56e2b 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -126,7 +126,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @param name an optional binding name
 	///
 	public: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		registerPostConstructionCallImpl([ptrPtr, name] (const Injector & injector) { *ptrPtr  = injector.getShared<T>(name); });
+		registerPostConstructionCallImpl([ptrPtr, name = std::string(name)] (const Injector & injector) { *ptrPtr  = injector.getShared<T>(name); });
 		registerPreDestructionCallImpl([ptrPtr] () { ptrPtr->reset(); });
 	}
 
-- 
2.43.0


From 2bc0e1bbfa158d94bf4a693c6907c92697474e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:35 +0000
Subject: [PATCH 077/125] fix: const promotion looks for a non-const binding in
 the whole injector hierarchy

---
 src/main/cpp/Balau/Application/Injector.hpp | 135 ++++++++++----------
 1 file changed, 69 insertions(+), 66 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 7b56e2b..ff47870 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1257,41 +1257,52 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 	private: template <typename T>
 	T & getReferenceImpl(std::string_view name) const {
-		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>), name);
+		using MutableT = typename std::remove_const<T>::type;
 
-		const auto * binding = bindings->find(keyView);
+		if (T * instance = findReferenceImpl<T>(name)) {
+			return *instance;
+		}
 
-		if (binding != nullptr) {
-			return getReferenceInstance<T>(*binding);
-		} else if (parent) {
-			return parent->getReferenceImpl<T>(name);
-		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>::isConst) {
-				return getReferenceImpl<typename std::remove_const<T>::type>(name);
-			} else {
-				ThrowBalauException(Exception::NoBindingException, keyView.toKey());
+		// Try a non-const binding in the whole hierarchy?
+		if constexpr (std::is_const<T>::value) {
+			if (T * instance = findReferenceImpl<MutableT>(name)) {
+				return *instance;
 			}
 		}
+
+		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Reference, MutableT>), name);
+		ThrowBalauException(Exception::NoBindingException, keyView.toKey());
 	}
 
 	private: template <typename T>
 	T & getReferenceImpl(std::string_view name, T & defaultValue) const {
+		if (T * instance = findReferenceImpl<T>(name)) {
+			return *instance;
+		}
+
+		// Try a non-const binding in the whole hierarchy?
+		if constexpr (std::is_const<T>::value) {
+			if (T * instance = findReferenceImpl<typename std::remove_const<T>::type>(name)) {
+				return *instance;
+			}
+		}
+
+		return defaultValue;
+	}
+
+	// Find the reference of the nearest binding in the hierarchy (nullptr if there is none).
+	private: template <typename T>
+	T * findReferenceImpl(std::string_view name) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>), name);
 
 		const auto * binding = bindings->find(keyView);
 
 		if (binding != nullptr) {
-			return getReferenceInstance<T>(*binding);
+			return std::addressof(getReferenceInstance<T>(*binding));
 		} else if (parent) {
-			return parent->getReferenceImpl<T>(name, defaultValue);
+			return parent->findReferenceImpl<T>(name);
 		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>::isConst) {
-				return getReferenceImpl<typename std::remove_const<T>::type>(name, defaultValue);
-			} else {
-				return defaultValue;
-			}
+			return nullptr;
 		}
 	}
 
@@ -1342,76 +1353,68 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 	private: template <typename BaseT>
 	std::shared_ptr<BaseT> getSharedImpl(std::string_view name) const {
-		const auto typeIndex = std::type_index(typeid(BaseT));
-		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>), name);
+		using MutableT = typename std::remove_const<BaseT>::type;
 
-		const auto * binding = bindings->find(keyView);
+		std::shared_ptr<BaseT> instance;
 
-		if (binding != nullptr) {
-			return getSharedInstance<BaseT>(*binding);
-		} else if (typeIndex == std::type_index(typeid(Injector))) {
-			// If we are here, then BaseT == Injector and the cast disappears.
-			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
-			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (parent) {
-			return parent->getSharedImpl<BaseT>(name);
-		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name);
-			} else {
-				ThrowBalauException(Exception::NoBindingException, keyView.toKey());
-			}
+		if (!findPromotedSharedImpl<BaseT>(name, instance)) {
+			const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, MutableT>), name);
+			ThrowBalauException(Exception::NoBindingException, keyView.toKey());
 		}
+
+		return instance;
 	}
 
 	private: template <typename BaseT>
 	std::shared_ptr<BaseT> getSharedImpl(std::string_view name, const std::shared_ptr<BaseT> & defaultValue) const {
-		const auto typeIndex = std::type_index(typeid(BaseT));
-		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>), name);
+		std::shared_ptr<BaseT> instance;
+		return findPromotedSharedImpl<BaseT>(name, instance) ? instance : defaultValue;
+	}
 
-		const auto * binding = bindings->find(keyView);
+	private: template <typename BaseT>
+	std::shared_ptr<BaseT> getSharedImpl(std::string_view name, const std::function<std::shared_ptr<BaseT> ()> & defaultValueSupplier) const {
+		std::shared_ptr<BaseT> instance;
+		return findPromotedSharedImpl<BaseT>(name, instance) ? instance : defaultValueSupplier();
+	}
 
-		if (binding != nullptr) {
-			return getSharedInstance<BaseT>(*binding);
-		} else if (typeIndex == std::type_index(typeid(Injector))) {
-			// If we are here, then BaseT == Injector and the cast disappears.
-			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
-			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (parent) {
-			return parent->getSharedImpl<BaseT>(name, defaultValue);
-		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name, defaultValue);
-			} else {
-				return defaultValue;
+	// Find the shared instance of the nearest binding in the hierarchy, with const promotion.
+	private: template <typename BaseT>
+	bool findPromotedSharedImpl(std::string_view name, std::shared_ptr<BaseT> & instance) const {
+		if (findSharedImpl<BaseT>(name, instance)) {
+			return true;
+		}
+
+		// Try a non-const binding in the whole hierarchy?
+		if constexpr (std::is_const<BaseT>::value) {
+			std::shared_ptr<typename std::remove_const<BaseT>::type> mutableInstance;
+
+			if (findSharedImpl(name, mutableInstance)) {
+				instance = mutableInstance;
+				return true;
 			}
 		}
+
+		return false;
 	}
 
+	// Find the shared instance of the nearest binding in the hierarchy.
 	private: template <typename BaseT>
-	std::shared_ptr<BaseT> getSharedImpl(std::string_view name, const std::function<std::shared_ptr<BaseT> ()> & defaultValueSupplier) const {
+	bool findSharedImpl(std::string_view name, std::shared_ptr<BaseT> & instance) const {
 		const auto typeIndex = std::type_index(typeid(BaseT));
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>), name);
 
 		const auto * binding = bindings->find(keyView);
 
 		if (binding != nullptr) {
-			return getSharedInstance<BaseT>(*binding);
+			instance = getSharedInstance<BaseT>(*binding);
+			return true;
 		} else if (typeIndex == std::type_index(typeid(Injector))) {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
-			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (parent) {
-			return parent->getSharedImpl<BaseT>(name, defaultValueSupplier);
+			instance = std::reinterpret_pointer_cast<BaseT>(ptr);
+			return true;
 		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name, defaultValueSupplier);
-			} else {
-				return defaultValueSupplier();
-			}
+			return parent && parent->findSharedImpl<BaseT>(name, instance);
 		}
 	}
 
-- 
2.43.0


From f148ce885bffa53b2d324c42d893f5fb3c75ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 078/125] fix: injector validation resolves dependencies as
 instantiation does (ancestors, const and weak promotion)

---
 .../cpp/Balau/Application/Impl/Binding.hpp    | 38 +++++++++--
 .../cpp/Balau/Application/Impl/BindingKey.hpp | 63 ++++++++++++++++---
 src/main/cpp/Balau/Application/Injector.hpp   | 11 +++-
 3 files changed, 99 insertions(+), 13 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/Binding.hpp b/src/main/cpp/Balau/Application/Impl/Binding.hpp
index ff059d7..63856c4 100644
--- a/src/main/cpp/Balau/Application/Impl/Binding.hpp
+++ b/src/main/cpp/Balau/Application/Impl/Binding.hpp
@@ -70,11 +70,16 @@ class AbstractBinding {
 	//
 	// Also handled are the injector binding key special cases.
 	//
+	// A dependency is satisfied by the bindings that are used when the dependency
+	// is instantiated, i.e. the bindings of the injector's ancestors and those
+	// obtained via const and weak promotion are included.
+	//
 	private: void registerDependencies(BindingGraph & bindingGraph,
 	                                   const BindingKey & weakInjectorKey,
 	                                   const BindingKey & constWeakInjectorKey,
 	                                   const BindingKey & sharedInjectorKey,
-	                                   const BindingKey & constSharedInjectorKey) const {
+	                                   const BindingKey & constSharedInjectorKey,
+	                                   const std::function<bool (const BindingKey &)> & ancestorHasBinding) const {
 		const std::vector<BindingKey> dependencyKeys = getDependencyKeys();
 
 		for (const auto & dependencyKey : dependencyKeys) {
@@ -86,14 +91,37 @@ class AbstractBinding {
 				|| dependencyKey == sharedInjectorKey
 				|| dependencyKey == constSharedInjectorKey) {
 				continue; // Special case of injector being injected.
-			} else if (bindingGraph.hasDependency(dependencyKey)) {
-				bindingGraph.addRelationship(dependencyKey, thisKey);
-			} else {
-				ThrowBalauException(Exception::MissingDependencyException, thisKey, dependencyKey);
+			} else if (!registerDependency(bindingGraph, dependencyKey, thisKey, ancestorHasBinding)) {
+				bool found = false;
+
+				for (const auto & promotion : dependencyKey.getPromotions()) {
+					const BindingKey promotedKey(promotion, dependencyKey.getName());
+
+					if (registerDependency(bindingGraph, promotedKey, thisKey, ancestorHasBinding)) {
+						found = true;
+						break;
+					}
+				}
+
+				if (!found) {
+					ThrowBalauException(Exception::MissingDependencyException, thisKey, dependencyKey);
+				}
 			}
 		}
 	}
 
+	private: static bool registerDependency(BindingGraph & bindingGraph,
+	                                        const BindingKey & dependencyKey,
+	                                        const BindingKey & thisKey,
+	                                        const std::function<bool (const BindingKey &)> & ancestorHasBinding) {
+		if (bindingGraph.hasDependency(dependencyKey)) {
+			bindingGraph.addRelationship(dependencyKey, thisKey);
+			return true;
+		}
+
+		return ancestorHasBinding(dependencyKey);
+	}
+
 	//
 	// Called after the bindings are created but before the injector
 	// pointer becomes available for use. Most Supplier implementations
diff --git a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
index 75c5ea2..fe18239 100644
--- a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
+++ b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
@@ -27,6 +27,7 @@
 #include <string>
 #include <typeindex>
 #include <utility>
+#include <vector>
 
 namespace Balau::Impl {
 
@@ -186,6 +187,21 @@ class BindingKey final {
 		#endif
 	{}
 
+	//
+	// Create a dependency key that other bindings may also satisfy.
+	//
+	// The promotions are the types of those bindings, in order of preference.
+	// They do not form part of the identity of the key.
+	//
+	public: BindingKey(std::type_index type_, std::string && name_, std::vector<std::type_index> promotions_)
+		: type(type_)
+		  , name(std::move(name_))
+		  , promotions(std::move(promotions_))
+		#ifdef BALAU_DEBUG
+		, typeStr(demangleBindingKeyTypeString(boost::core::demangle(type.name())))
+		#endif
+	{}
+
 	public: explicit BindingKey(std::string && name_)
 		: type(typeid(BindingKey)) // Not set.
 		  , name(std::move(name_))
@@ -216,6 +232,10 @@ class BindingKey final {
 		return name;
 	}
 
+	public: const std::vector<std::type_index> & getPromotions() const {
+		return promotions;
+	}
+
 	public: size_t hashcode() const noexcept {
 		return std::hash<std::type_index>()(type) ^ (41 * std::hash<std::string>()(name));
 	}
@@ -231,6 +251,7 @@ class BindingKey final {
 
 	private: std::type_index type;
 	private: std::string name;
+	private: std::vector<std::type_index> promotions;
 
 	#ifdef BALAU_DEBUG
 	// Displays the demangled binding key type in the debugger.
@@ -317,7 +338,11 @@ template <typename T> struct CreateBindingKey<T &> {
 // Create a const "Reference" binding key.
 template <typename T> struct CreateBindingKey<const T &> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Reference, const T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::Reference, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Reference, T>) }
+		);
 	}
 };
 
@@ -338,42 +363,66 @@ template <typename T> struct CreateBindingKey<const std::shared_ptr<T>> {
 // Create a "Shared" const binding key.
 template <typename T> struct CreateBindingKey<std::shared_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a const "Shared" const binding key.
 template <typename T> struct CreateBindingKey<const std::shared_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a "Shared" weak binding key.
 template <typename T> struct CreateBindingKey<std::weak_ptr<T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a const weak "Shared" binding key.
 template <typename T> struct CreateBindingKey<const std::weak_ptr<T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a weak "Shared" const binding key.
 template <typename T> struct CreateBindingKey<std::weak_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a const weak "Shared" const binding key.
 template <typename T> struct CreateBindingKey<const std::weak_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index ff47870..ef40b29 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1676,7 +1676,16 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 		// Validate and create the edges of the dependency graph.
 		for (const auto & binding : (*bindings)) {
-			binding.value->registerDependencies(graph, weakKey, constWeakKey, sharedKey, constSharedKey);
+			binding.value->registerDependencies(
+				  graph
+				, weakKey
+				, constWeakKey
+				, sharedKey
+				, constSharedKey
+				, [this] (const Impl::BindingKey & key) {
+					return parent && parent->hasBinding(Impl::BindingKeyView(key));
+				}
+			);
 		}
 
 		std::vector<std::pair<Impl::BindingKey, Impl::BindingKey>> cycleEdges;
-- 
2.43.0


From d7f147f7f544746488e3448004d86ba06aa97260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 079/125] fix: hasBinding finds the binding of a const value

---
 src/main/cpp/Balau/Application/Injector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index ef40b29..24f93ab 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -748,11 +748,11 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 
 		static Impl::BindingKey createBindingKey(std::string name) {
-			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Value, T>), std::move(name));
+			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Value, U>), std::move(name));
 		}
 
 		static Impl::BindingKeyView createBindingKeyView(std::string_view name) {
-			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Value, T>), name);
+			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Value, U>), name);
 		}
 
 		explicit GetInstance(const Injector * injector_) : injector(injector_) {}
-- 
2.43.0


From 856f70104f8ec45d157305401e72525cd7800294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 080/125] fix: const value and unique bindings and requests use
 the non-const binding

---
 .../cpp/Balau/Application/BindingBuilder.hpp  | 32 +++++++++++--------
 .../cpp/Balau/Application/Impl/BindingKey.hpp | 17 ++++++++--
 src/main/cpp/Balau/Application/Injector.hpp   | 20 +++++++-----
 3 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/src/main/cpp/Balau/Application/BindingBuilder.hpp b/src/main/cpp/Balau/Application/BindingBuilder.hpp
index c5e8661..2f4aa97 100644
--- a/src/main/cpp/Balau/Application/BindingBuilder.hpp
+++ b/src/main/cpp/Balau/Application/BindingBuilder.hpp
@@ -50,7 +50,11 @@ using UniquePropertyCloner = std::function<std::unique_ptr<BaseT> (const std::un
 ///
 template <typename BaseT, typename DeleterT>
 class BindingBuilder final : public Impl::BindingBuilderBase {
-	private: using UniquePtrProviderFunction = std::function<std::unique_ptr<BaseT> ()>;
+	// Value and unique bindings are never const.
+	private: using MutableT = typename std::remove_const<BaseT>::type;
+	private: using MutableDeleterT = typename Impl::MutableDeleter<DeleterT>::type;
+
+	private: using UniquePtrProviderFunction = std::function<std::unique_ptr<MutableT> ()>;
 
 	///
 	/// Bind a concrete type.
@@ -128,7 +132,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	public: template <typename DerivedT> void toUnique() {
 		warnInvalidConstQualifier(Impl::BindingMetaType::Unique);
 		using U = typename std::remove_const<BaseT>::type;
-		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, DeleterT>;
+		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, MutableDeleterT>;
 		setKeyType<T>();
 		supplier = std::unique_ptr<BindingSupplier>(new InstantiatingUniquePtrBindingSupplier<DerivedT>());
 	}
@@ -141,7 +145,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	public: void toUniqueProvider(UniquePtrProviderFunction provider) {
 		warnInvalidConstQualifier(Impl::BindingMetaType::Unique);
 		using U = typename std::remove_const<BaseT>::type;
-		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, DeleterT>;
+		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, MutableDeleterT>;
 		setKeyType<T>();
 		supplier = std::unique_ptr<BindingSupplier>(new ProvidingFunctionUniquePtrBindingSupplier(provider));
 	}
@@ -154,7 +158,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	public: template <typename ProviderT> void toUniqueProvider() {
 		warnInvalidConstQualifier(Impl::BindingMetaType::Unique);
 		using U = typename std::remove_const<BaseT>::type;
-		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, DeleterT>;
+		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, MutableDeleterT>;
 		setKeyType<T>();
 		supplier = std::unique_ptr<BindingSupplier>(new ProvidingClassUniquePtrBindingSupplier<ProviderT>());
 	}
@@ -169,7 +173,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	public: template <typename ProviderT> void toUniqueProvider(std::shared_ptr<ProviderT> provider) {
 		warnInvalidConstQualifier(Impl::BindingMetaType::Unique);
 		using U = typename std::remove_const<BaseT>::type;
-		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, DeleterT>;
+		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, MutableDeleterT>;
 		setKeyType<T>();
 		supplier = std::unique_ptr<BindingSupplier>(new ProvidingClassInstanceUniquePtrBindingSupplier<ProviderT>(std::move(provider)));
 	}
@@ -361,7 +365,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 
 	private: class InstantiatingValueBindingSupplier : public BindingSupplier {
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
-			return std::unique_ptr<Impl::AbstractBinding>(new Impl::InstantiatingValueBinding<BaseT>(std::move(key)));
+			return std::unique_ptr<Impl::AbstractBinding>(new Impl::InstantiatingValueBinding<MutableT>(std::move(key)));
 		}
 	};
 
@@ -372,7 +376,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 			: prototype(prototype_) {}
 
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
-			return std::unique_ptr<Impl::AbstractBinding>(new Impl::PrototypeBinding<BaseT>(std::move(key), prototype));
+			return std::unique_ptr<Impl::AbstractBinding>(new Impl::PrototypeBinding<MutableT>(std::move(key), prototype));
 		}
 	};
 
@@ -385,7 +389,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::ProvidingFunctionValueBinding<BaseT, ProviderFunctionT>(std::move(key), provide)
+				new Impl::ProvidingFunctionValueBinding<MutableT, ProviderFunctionT>(std::move(key), provide)
 			);
 		}
 	};
@@ -393,7 +397,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	private: template <typename ProviderT> class ProvidingClassValueBindingSupplier : public BindingSupplier {
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::ProvidingClassValueBinding<BaseT, ProviderT>(std::move(key))
+				new Impl::ProvidingClassValueBinding<MutableT, ProviderT>(std::move(key))
 			);
 		}
 	};
@@ -404,7 +408,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::ProvidingClassInstanceValueBinding<BaseT, ProviderT>(std::move(key), provider)
+				new Impl::ProvidingClassInstanceValueBinding<MutableT, ProviderT>(std::move(key), provider)
 			);
 		}
 
@@ -427,7 +431,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	private: template <typename DerivedT> class InstantiatingUniquePtrBindingSupplier : public BindingSupplier {
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::InstantiatingUniquePtrBinding<BaseT, DerivedT, DeleterT>(std::move(key))
+				new Impl::InstantiatingUniquePtrBinding<MutableT, DerivedT, MutableDeleterT>(std::move(key))
 			);
 		}
 	};
@@ -440,7 +444,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::ProvidingFunctionUniquePtrBinding<BaseT, DeleterT>(std::move(key), provide)
+				new Impl::ProvidingFunctionUniquePtrBinding<MutableT, MutableDeleterT>(std::move(key), provide)
 			);
 		}
 	};
@@ -448,7 +452,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	private: template <typename ProviderT> class ProvidingClassUniquePtrBindingSupplier : public BindingSupplier {
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::ProvidingClassUniquePtrBinding<BaseT, ProviderT, DeleterT>(std::move(key))
+				new Impl::ProvidingClassUniquePtrBinding<MutableT, ProviderT, MutableDeleterT>(std::move(key))
 			);
 		}
 	};
@@ -459,7 +463,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::ProvidingClassInstanceUniquePtrBinding<BaseT, ProviderT, DeleterT>(std::move(key), provider)
+				new Impl::ProvidingClassInstanceUniquePtrBinding<MutableT, ProviderT, MutableDeleterT>(std::move(key), provider)
 			);
 		}
 
diff --git a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
index fe18239..b4f9dd4 100644
--- a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
+++ b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
@@ -88,6 +88,19 @@ inline std::string toString(const BindingMetaType metaType) {
 // Dummy type that is used for non-unique binding key types.
 struct NoDeleter {};
 
+//
+// The deleter type of the unique bindings that provide the instances for a unique pointer.
+//
+// The const qualifier of the default deleter is removed, as it is from the base type of unique bindings.
+//
+template <typename DeleterT> struct MutableDeleter {
+	using type = DeleterT;
+};
+
+template <typename T> struct MutableDeleter<std::default_delete<const T>> {
+	using type = std::default_delete<T>;
+};
+
 //
 // Instantiations of this template class are used in the binding key in order
 // to encapsulate the const qualifier and the meta-type information inside a
@@ -317,14 +330,14 @@ template <typename T, typename DeleterT> struct CreateBindingKey<const std::uniq
 // Create a "Unique" binding key.
 template <typename T, typename DeleterT> struct CreateBindingKey<std::unique_ptr<const T, DeleterT>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, DeleterT>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, typename MutableDeleter<DeleterT>::type>), std::move(name));
 	}
 };
 
 // Create a "Unique" binding key.
 template <typename T, typename DeleterT> struct CreateBindingKey<const std::unique_ptr<const T, DeleterT>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, DeleterT>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, typename MutableDeleter<DeleterT>::type>), std::move(name));
 	}
 };
 
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 24f93ab..1fda731 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -829,8 +829,10 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	// This immediately promotes to std::unique_ptr<T>.
 	//
 	private: template <typename BaseT, typename DeleterT> struct GetInstance<std::unique_ptr<const BaseT, DeleterT>> {
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name);
+		using MutableDeleterT = typename Impl::MutableDeleter<DeleterT>::type;
+
+		std::unique_ptr<BaseT, MutableDeleterT> get(std::string_view name) const {
+			return injector->getUniqueImpl<BaseT, MutableDeleterT>(name);
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
@@ -846,11 +848,11 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 
 		static Impl::BindingKey createBindingKey(std::string name) {
-			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), std::move(name));
+			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, MutableDeleterT>), std::move(name));
 		}
 
 		static Impl::BindingKeyView createBindingKeyView(std::string_view name) {
-			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
+			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, MutableDeleterT>), name);
 		}
 
 		explicit GetInstance(const Injector * injector_) : injector(injector_) {}
@@ -862,8 +864,10 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	// This immediately promotes to std::unique_ptr<T>.
 	//
 	private: template <typename BaseT, typename DeleterT> struct GetInstance<const std::unique_ptr<const BaseT, DeleterT>> {
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name);
+		using MutableDeleterT = typename Impl::MutableDeleter<DeleterT>::type;
+
+		std::unique_ptr<BaseT, MutableDeleterT> get(std::string_view name) const {
+			return injector->getUniqueImpl<BaseT, MutableDeleterT>(name);
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
@@ -879,11 +883,11 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 
 		static Impl::BindingKey createBindingKey(std::string name) {
-			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), std::move(name));
+			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, MutableDeleterT>), std::move(name));
 		}
 
 		static Impl::BindingKeyView createBindingKeyView(std::string_view name) {
-			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
+			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, MutableDeleterT>), name);
 		}
 
 		explicit GetInstance(const Injector * injector_) : injector(injector_) {}
-- 
2.43.0


From eb9ec1bae418318c9de1e1364310bf0171172e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 081/125] fix: configurations added by an added configuration
 are part of the injector

---
 src/main/cpp/Balau/Application/Injector.hpp | 28 +++++++++++++--------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 1fda731..6de1fa9 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1577,11 +1577,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			, conf ...
 		);
 
-		for (const auto & c : extraConfiguration) {
-			Util::Containers::append(builders, c->execute());
-			Util::Containers::append(postConstructionCalls, c->getPostConstructionCalls());
-			Util::Containers::append(preDestructionCalls, c->getPreDestructionCalls());
-		}
+		executeExtraConfiguration(builders, std::move(extraConfiguration));
 
 		auto theBindings = std::make_shared<Impl::BindingMap>();
 
@@ -1608,14 +1604,14 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			Util::Containers::append(preDestructionCalls, c->getPreDestructionCalls());
 		}
 
+		std::vector<const InjectorConfiguration *> extraConfiguration;
+
 		for (const auto & c : conf) {
-			for (const auto * c2 : c->getExtraConfiguration()) {
-				Util::Vectors::append(builders, c2->execute());
-				Util::Containers::append(postConstructionCalls, c2->getPostConstructionCalls());
-				Util::Containers::append(preDestructionCalls, c2->getPreDestructionCalls());
-			}
+			Util::Containers::append(extraConfiguration, c->getExtraConfiguration());
 		}
 
+		executeExtraConfiguration(builders, std::move(extraConfiguration));
+
 		auto theBindings = std::make_shared<Impl::BindingMap>();
 
 		for (auto & builder : builders) {
@@ -1632,6 +1628,18 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		return theBindings;
 	}
 
+	// Run the configurations that were added by other configurations, and the configurations that these add.
+	private: void executeExtraConfiguration(std::vector<std::shared_ptr<Impl::BindingBuilderBase>> & builders,
+	                                        std::vector<const InjectorConfiguration *> extraConfiguration) {
+		for (size_t m = 0; m < extraConfiguration.size(); ++m) {
+			const auto * c = extraConfiguration[m];
+			Util::Containers::append(builders, c->execute());
+			Util::Containers::append(postConstructionCalls, c->getPostConstructionCalls());
+			Util::Containers::append(preDestructionCalls, c->getPreDestructionCalls());
+			Util::Containers::append(extraConfiguration, c->getExtraConfiguration());
+		}
+	}
+
 	private: void registerPostConstructionCallImpl(const std::function<void (const Injector &)> & call) const {
 		std::lock_guard<std::recursive_mutex> lock(callSync);
 		postConstructionCalls.push_back(call);
-- 
2.43.0


From b5d412046aebc61884e20a55c5057957445e2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 082/125] fix: a configuration used for a second injector does
 not register its callbacks and added configurations twice

---
 .../cpp/Balau/Application/ApplicationConfiguration.hpp   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
index 921d929..ad82ae4 100644
--- a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
@@ -114,15 +114,18 @@ class ApplicationConfiguration : public InjectorConfiguration {
 	}
 
 	public: std::vector<const InjectorConfiguration *> getExtraConfiguration() const override {
-		return extraConfiguration;
+		// Move the vector, otherwise the next run of this configuration would add to it.
+		return std::move(extraConfiguration);
 	}
 
 	public: std::list<std::function<void (const Injector& )>> getPostConstructionCalls() const override {
-		return postConstructionCalls;
+		// Move the list, otherwise the next run of this configuration would add to it.
+		return std::move(postConstructionCalls);
 	}
 
 	public: std::list<std::function<void ()>> getPreDestructionCalls() const override {
-		return preDestructionCalls;
+		// Move the list, otherwise the next run of this configuration would add to it.
+		return std::move(preDestructionCalls);
 	}
 
 	public: std::list<std::unique_ptr<StaticSingletonRegistrationBase>> getStaticSingletonPostConstructionCalls() const override {
-- 
2.43.0


From 86c06e0f745eafed2e0838e362c79fcc38bc1f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 083/125] fix: requests of const shared instances accept a
 default value

---
 src/main/cpp/Balau/Application/Injector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 6de1fa9..da890a0 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1026,7 +1026,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1059,7 +1059,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1092,7 +1092,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<BaseT>(name);
 		}
 
-		std::shared_ptr<BaseT> get(std::string_view name, std::shared_ptr<BaseT> & defaultValue) const {
+		std::shared_ptr<BaseT> get(std::string_view name, const std::shared_ptr<BaseT> & defaultValue) const {
 			return injector->getSharedImpl<BaseT>(name, defaultValue);
 		}
 
@@ -1125,7 +1125,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<BaseT>(name);
 		}
 
-		std::shared_ptr<BaseT> get(std::string_view name, std::shared_ptr<BaseT> & defaultValue) const {
+		std::shared_ptr<BaseT> get(std::string_view name, const std::shared_ptr<BaseT> & defaultValue) const {
 			return injector->getSharedImpl<BaseT>(name, defaultValue);
 		}
 
@@ -1158,7 +1158,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1191,7 +1191,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
-- 
2.43.0


From 1eeae73f43f71cf28a6c79845c120ed82365f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 084/125] fix: requests of unique instances accept a default
 value

---
 src/main/cpp/Balau/Application/Injector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index da890a0..c530866 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -767,8 +767,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -800,8 +800,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -1326,7 +1326,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	}
 
 	private: template <typename BaseT, typename DeleterT>
-	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::unique_ptr<BaseT> && defaultValue) const {
+	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
 
 		const auto * binding = bindings->find(keyView);
@@ -1341,7 +1341,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	}
 
 	private: template <typename BaseT, typename DeleterT>
-	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::function<std::unique_ptr<BaseT> ()> & defaultValueSupplier) const {
+	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
 
 		const auto * binding = bindings->find(keyView);
-- 
2.43.0


From bc5a920d7164c3fcf7ba5d53d3518f11da14f99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 085/125] fix: a thread local instance does not find the values
 of a destroyed one

---
 .../Balau/Concurrent/ThreadLocalInstance.hpp  | 52 ++++++++++++++++++-
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
index 3af30cf..52f8cba 100644
--- a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
+++ b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
@@ -28,8 +28,56 @@
 
 #include <boost/thread/tss.hpp>
 
+#include <atomic>
+#include <functional>
+#include <memory>
+
 namespace Balau::Concurrent {
 
+namespace Impl {
+
+//
+// The values that other threads have in a destroyed thread local instance live on until these
+// threads end. They are found by a thread local instance that is later created at the same
+// address. Each value thus has the identity of the thread local instance it belongs to.
+//
+struct ThreadLocalValueBase {
+	const size_t owner;
+
+	explicit ThreadLocalValueBase(size_t owner_) : owner(owner_) {}
+	virtual ~ThreadLocalValueBase() = default;
+
+	static size_t createOwner() {
+		static std::atomic<size_t> previous { 0 };
+		return ++previous;
+	}
+};
+
+template <typename T> struct ThreadLocalValue : public ThreadLocalValueBase {
+	const std::unique_ptr<T> value;
+
+	ThreadLocalValue(size_t owner_, std::unique_ptr<T> && value_)
+		: ThreadLocalValueBase(owner_)
+		, value(std::move(value_)) {}
+};
+
+template <typename T> class ThreadLocalStorage {
+	public: T * get() const {
+		const auto * v = values.get();
+		return v != nullptr && v->owner == owner ? static_cast<const ThreadLocalValue<T> *>(v)->value.get() : nullptr;
+	}
+
+	public: void reset(T * value) {
+		std::unique_ptr<T> v(value);
+		values.reset(new ThreadLocalValue<T>(owner, std::move(v)));
+	}
+
+	private: const size_t owner = ThreadLocalValueBase::createOwner();
+	private: boost::thread_specific_ptr<ThreadLocalValueBase> values;
+};
+
+} // namespace Impl
+
 ///
 /// A thread local instance that can be used as a class member instance variable.
 ///
@@ -61,7 +109,7 @@ class ThreadLocalInstance<T, typename std::enable_if<std::is_default_constructib
 
 	///////////////////////// Private implementation //////////////////////////
 
-	private: boost::thread_specific_ptr<T> instance;
+	private: Impl::ThreadLocalStorage<T> instance;
 };
 
 template <typename T>
@@ -79,7 +127,7 @@ class ThreadLocalInstance<T, std::negation<typename std::enable_if<std::is_defau
 
 	///////////////////////// Private implementation //////////////////////////
 
-	private: boost::thread_specific_ptr<T> instance;
+	private: Impl::ThreadLocalStorage<T> instance;
 };
 
 } // namespace Balau::Concurrent
-- 
2.43.0


From bfeb24ca788db08f3317339057fde502e18ad757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 086/125] fix: an environment configuration made from texts
 uses the type specification text

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 8d8f0bc..48f8c9e 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -244,7 +244,7 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	///
 	public: EnvironmentConfiguration(const std::string & input, const std::string & typeSpecifications_)
 		: propertyStringsHierarchy(Impl::EnvironmentConfigurationBuilderUtils::createPropertyStrings({ std::shared_ptr<Resource::Uri>(new Resource::StringUri(input)) }))
-		, typeSpecificationsUris(Util::Vectors::pushBack(std::shared_ptr<Resource::Uri>(new Resource::StringUri(input)))) {}
+		, typeSpecificationsUris(Util::Vectors::pushBack(std::shared_ptr<Resource::Uri>(new Resource::StringUri(typeSpecifications_)))) {}
 
 	///
 	/// Create an environment configuration by specifying the source properties file.
-- 
2.43.0


From 0927999c5a4908ff493e74d2a89ec16bfe59125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 087/125] fix: an environment configuration with declared types
 can be used for a second injector

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 48f8c9e..6893338 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -444,6 +444,9 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 				}
 			}
 
+			// The configure method declares the factories again when the configuration is used for another injector.
+			allBindingBuilderFactories.clear();
+
 			builders = Impl::EnvironmentConfigurationBuilder::build(
 				typeSpecificationsUris, bindingBuilderFactoriesVector, propertyStringsHierarchy
 			);
-- 
2.43.0


From 4cdfc59284883169bee2e8e853c08f6cbc7adaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 088/125] fix: nested includes of environment properties are
 resolved against the including source

---
 .../Impl/EnvironmentConfigurationBuilderUtils.hpp     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
index 6e206a8..a903293 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
@@ -48,8 +48,9 @@ class EnvironmentConfigurationBuilderUtils {
 	};
 
 	private: class PropertyTrieCreator : public Lang::Property::PropertyVisitor {
-		public: PropertyTrieCreator(const std::shared_ptr<Resource::Uri> & uri_)
-			: uri(uri_) {}
+		public: PropertyTrieCreator(const std::shared_ptr<Resource::Uri> & uri_) {
+			uris.push(uri_);
+		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::Properties & object) override {
 			for (auto & node : object.getNodes()) {
@@ -75,9 +76,11 @@ class EnvironmentConfigurationBuilderUtils {
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::IncludePropertyNode & object) override {
-			std::shared_ptr<Resource::Uri> resolvedUri = Resource::UriResolve::resolve(*uri, Util::Strings::trim(object.getText()));
+			std::shared_ptr<Resource::Uri> resolvedUri = Resource::UriResolve::resolve(*uris.top(), Util::Strings::trim(object.getText()));
 			auto properties = Lang::Property::PropertyParserService::parse(resolvedUri);
+			uris.push(resolvedUri);
 			visit(payload, properties);
+			uris.pop();
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::CommentPropertyNode & object) override {
@@ -88,7 +91,7 @@ class EnvironmentConfigurationBuilderUtils {
 			// NOP
 		}
 
-		private: const std::shared_ptr<Resource::Uri> uri;
+		private: std::stack<std::shared_ptr<Resource::Uri>> uris;
 	};
 
 	// Parse the properties sources and create an object trie containing property string objects.
-- 
2.43.0


From 7a2777fac5b8d47e151ff956d7a4218a4061361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:24 +0000
Subject: [PATCH 089/125] fix: default values that contain an equals sign are
 not truncated

---
 .../Impl/PropertyTypeSpecificationVisitor.hpp | 48 +++++++------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
index 443aa0f..16fcfd8 100644
--- a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
+++ b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
@@ -77,41 +77,25 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 	public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::ValueProperty & object) {
 		auto & pl = static_cast<PropertyTypeSpecificationVisitorPayload &>(payload);
 
-		auto splitValue = Util::Strings::split(object.getValue(), PropertyTypeSpecificationVisitorUtilities<>::defaultValueDelimiter);
-
+		// The default value is the whole text after the first delimiter. It may contain further '=' characters.
+		// It is up to the fromString function to determine if the text is a value or not.
+		const std::string_view text = object.getValue();
 		std::string typeSpecification;
 		std::string defaultValue;
+		std::cmatch delimiter;
+
+		if (std::regex_search(text.data(), text.data() + text.length(), delimiter, PropertyTypeSpecificationVisitorUtilities<>::defaultValueDelimiter)) {
+			typeSpecification = delimiter.prefix().str();
+			defaultValue = delimiter.suffix().str();
+		} else {
+			typeSpecification = std::string(text);
+		}
 
-		switch (splitValue.size()) {
-			case 0: {
-				ThrowBalauException(
-					Exception::EnvironmentConfigurationException
-				, ::toString("Missing type specification for property ", object.getName(), " sourced from ", *uris.top(), ".")
-				);
-			}
-
-			case 1: {
-				typeSpecification = std::string(splitValue[0]);
-				break;
-			}
-
-			case 2: {
-				typeSpecification = std::string(splitValue[0]);
-				defaultValue = std::string(splitValue[1]);
-				break;
-			}
-
-			default: {
-				// The multiple default value text contains one or more '='.. combine into a single piece of text.
-				// It is up to the fromString function to determine if the text is value or not.
-				typeSpecification = std::string(splitValue[0]);
-
-				const size_t length = std::accumulate(
-					splitValue.begin(), splitValue.end(), 0U, [] (size_t l, auto & s) { return l + s.length(); }
-				) - splitValue[0].length();
-
-				defaultValue = std::string(splitValue[1].data(), length);
-			}
+		if (typeSpecification.empty()) {
+			ThrowBalauException(
+				Exception::EnvironmentConfigurationException
+			, ::toString("Missing type specification for property ", object.getName(), " sourced from ", *uris.top(), ".")
+			);
 		}
 
 		auto factory = getBindingBuilderFactory(typeSpecification, std::string(object.getName()), defaultValue);
-- 
2.43.0


From 724e671a4831b8dd687db10f41485a5b3c006609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:47 +0000
Subject: [PATCH 090/125] fix: a value type specification for a composite
 property is ignored, not used as a composite one

---
 .../Impl/EnvironmentConfigurationBuilder.hpp          | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
index acab863..3ac4e5b 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
@@ -126,6 +126,13 @@ class EnvironmentConfigurationBuilder {
 	//
 	private: static void cascade(PropertyBindingBuilderFactoryPtr & dst,
 	                             const PropertyBindingBuilderFactoryPtr & src) {
+		if (!dst->isComposite()) {
+			ThrowBalauException(
+				  Exception::EnvironmentConfigurationException
+				, ::toString("Incompatible type specifications found for property ", dst->name, ".")
+			);
+		}
+
 		auto & dstComposite = *static_cast<CompositePropertyBindingBuilderFactory *>(dst.get());
 		const auto & srcComposite = *static_cast<const CompositePropertyBindingBuilderFactory *>(src.get());
 
@@ -259,7 +266,7 @@ class EnvironmentConfigurationBuilder {
 						//);
 					}
 
-					if (factoryNodeIter != bindingBuilderFactoryVector.end()) {
+					if (factoryNodeIter != bindingBuilderFactoryVector.end() && (*factoryNodeIter)->isComposite()) {
 						auto childLevel = std::unique_ptr<BindingMap>(new BindingMap);
 						auto & ptr = *factoryNodeIter;
 						const auto & compositeBindingBuilderFactory = *static_cast<const CompositePropertyBindingBuilderFactory *>(ptr.get());
@@ -347,7 +354,7 @@ class EnvironmentConfigurationBuilder {
 						//);
 					}
 
-					if (factoryNodeIter != bindingBuilderFactoryVector.end()) {
+					if (factoryNodeIter != bindingBuilderFactoryVector.end() && (*factoryNodeIter)->isComposite()) {
 						auto childLevel = std::unique_ptr<BindingMap>(new BindingMap);
 						auto & ptr = *factoryNodeIter;
 						const auto & compositeBindingBuilderFactory = *static_cast<const CompositePropertyBindingBuilderFactory *>(ptr.get());
-- 
2.43.0


From 468e782a673d2fdeef3eae431b03228b1619b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:47 +0000
Subject: [PATCH 091/125] fix: type specifications repeated within a composite
 specification are merged as those of the root are

---
 .../Impl/EnvironmentConfigurationBuilder.hpp  | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
index 3ac4e5b..c7a2b58 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
@@ -110,12 +110,17 @@ class EnvironmentConfigurationBuilder {
 
 			// Don't create an empty composite child.
 			if (!compositeFactory.children.empty()) {
-				Util::Vectors::pushBackOrReplace(
-					  bindingBuilderFactoryVector
-					, factory
-					, [] (const auto & lhs, const auto & rhs) { return lhs->name == rhs->name; }
-					, [] (auto & dst, const auto & src) { EnvironmentConfigurationBuilder::cascade(dst, src); }
+				auto existingDstIter = std::find_if(
+					  bindingBuilderFactoryVector.begin()
+					, bindingBuilderFactoryVector.end()
+					, [&factory] (const auto & dstFactory) { return dstFactory->name == factory->name; }
 				);
+
+				if (existingDstIter != bindingBuilderFactoryVector.end()) {
+					cascade(*existingDstIter, factory);
+				} else {
+					bindingBuilderFactoryVector.emplace_back(cascadeToNew(factory));
+				}
 			}
 		}
 	}
@@ -189,12 +194,22 @@ class EnvironmentConfigurationBuilder {
 					// Recurse.
 					cascade(*existingDstIter, srcChildFactory);
 				} else {
-					dstComposite.children.emplace_back(srcChildFactory);
+					dstComposite.children.emplace_back(cascadeToNew(srcChildFactory));
 				}
 			}
 		}
 	}
 
+	//
+	// Cascading of a source composite builder onto a new composite builder, in order
+	// that specifications repeated within the source composite are merged.
+	//
+	private: static PropertyBindingBuilderFactoryPtr cascadeToNew(const PropertyBindingBuilderFactoryPtr & src) {
+		auto dst = PropertyBindingBuilderFactoryPtr(new CompositePropertyBindingBuilderFactory(src->name));
+		cascade(dst, src);
+		return dst;
+	}
+
 	// A binding builder for environment properties instances.
 	private: class EnvironmentPropertiesBuilder : public BindingBuilderBase {
 		public: EnvironmentPropertiesBuilder(std::string name, std::shared_ptr<EnvironmentProperties> & instance_)
-- 
2.43.0


From b12ca7ae1346bd3534ca18844635c140f6f05a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:47 +0000
Subject: [PATCH 092/125] fix: unique environment properties accept default
 values

---
 .../Application/EnvironmentConfiguration.hpp  | 23 +++++++++++++++----
 .../Application/EnvironmentProperties.hpp     |  2 +-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 6893338..3e87870 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -372,10 +372,25 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	///
 	protected: template <typename BaseT>
 	Impl::PropertyBindingBuilderFactoryPtr unique(std::string name, std::unique_ptr<BaseT> && defaultValue) const {
-		Impl::PropertyBindingBuilderFactoryPtr factory = Impl::getBindingBuilderFactory(typeid(BaseT), name, "");
-		auto f = factory->clone(name, defaultValue);
-		allBindingBuilderFactories.emplace_back(f);
-		return f;
+		auto registered = std::dynamic_pointer_cast<Impl::UniquePropertyBindingBuilderFactory<BaseT>>(
+			Impl::getBindingBuilderFactory(typeid(BaseT), name, "")
+		);
+
+		if (!registered) {
+			ThrowBalauException(
+				  Exception::EnvironmentConfigurationException
+				, ::toString("The registered type of property ", name, " is not a unique type.")
+			);
+		}
+
+		auto factory = Impl::PropertyBindingBuilderFactoryPtr(
+			new Impl::UniquePropertyBindingBuilderFactory<BaseT>(
+				std::move(name), registered->clonerFunction, std::move(defaultValue)
+			)
+		);
+
+		allBindingBuilderFactories.emplace_back(factory);
+		return factory;
 	}
 
 	///
diff --git a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
index 44a62b8..7f35ee8 100644
--- a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
@@ -411,7 +411,7 @@ class EnvironmentProperties {
 	///
 	public: template <typename BaseT> std::unique_ptr<BaseT> getUnique(std::string_view name, std::unique_ptr<BaseT> && defaultValue) const {
 		return getUnique<BaseT>(
-			Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, std::default_delete<BaseT>>), name), defaultValue
+			Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, std::default_delete<BaseT>>), name), std::move(defaultValue)
 		);
 	}
 
-- 
2.43.0


From 19933594241b2d80cb23f8219e9088f0654be202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:08 +0000
Subject: [PATCH 093/125] fix: escapes and line continuations of environment
 property names and values are resolved

---
 .../Impl/EnvironmentConfigurationBuilderUtils.hpp         | 4 ++--
 .../Application/Impl/PropertyTypeSpecificationVisitor.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
index a903293..68dd9ac 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
@@ -60,12 +60,12 @@ class EnvironmentConfigurationBuilderUtils {
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::ValueProperty & object) override {
 			auto & pl = static_cast<PropertyTrieCreatorPayload &>(payload);
-			pl.nodeStack.top()->add(PropertyString(std::string(object.getName()), std::string(object.getValue())));
+			pl.nodeStack.top()->add(PropertyString(object.normalise(object.getName()), object.normalise(object.getValue())));
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::CompositeProperty & object) override {
 			auto & pl = static_cast<PropertyTrieCreatorPayload &>(payload);
-			auto & node = pl.nodeStack.top()->addAndReturnChild(PropertyString(std::string(object.getName())));
+			auto & node = pl.nodeStack.top()->addAndReturnChild(PropertyString(object.normalise(object.getName())));
 			pl.nodeStack.push(&node);
 
 			for (auto & childNode : object.getNodes()) {
diff --git a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
index 16fcfd8..94d1975 100644
--- a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
+++ b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
@@ -79,7 +79,7 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 
 		// The default value is the whole text after the first delimiter. It may contain further '=' characters.
 		// It is up to the fromString function to determine if the text is a value or not.
-		const std::string_view text = object.getValue();
+		const std::string text = object.normalise(object.getValue());
 		std::string typeSpecification;
 		std::string defaultValue;
 		std::cmatch delimiter;
@@ -88,7 +88,7 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 			typeSpecification = delimiter.prefix().str();
 			defaultValue = delimiter.suffix().str();
 		} else {
-			typeSpecification = std::string(text);
+			typeSpecification = text;
 		}
 
 		if (typeSpecification.empty()) {
@@ -98,7 +98,7 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 			);
 		}
 
-		auto factory = getBindingBuilderFactory(typeSpecification, std::string(object.getName()), defaultValue);
+		auto factory = getBindingBuilderFactory(typeSpecification, object.normalise(object.getName()), defaultValue);
 		pl.nodeVectorStack.top().emplace_back(factory);
 	}
 
@@ -106,7 +106,7 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 		auto & pl = static_cast<PropertyTypeSpecificationVisitorPayload &>(payload);
 		pl.nodeVectorStack.push(std::vector<PropertyBindingBuilderFactoryPtr>());
 
-		auto factory = PropertyBindingBuilderFactoryPtr(new CompositePropertyBindingBuilderFactory(std::string(object.getName())));
+		auto factory = PropertyBindingBuilderFactoryPtr(new CompositePropertyBindingBuilderFactory(object.normalise(object.getName())));
 		auto composite = std::static_pointer_cast<CompositePropertyBindingBuilderFactory>(factory);
 
 		for (auto & childNode : object.getNodes()) {
-- 
2.43.0


From 26ef4730993c53e529b86c3cd73e560cc6b8de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:42 +0000
Subject: [PATCH 094/125] fix: escapes and line continuations of logging
 property names and values are resolved

---
 src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
index 9bcc31c..036abfe 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
@@ -60,7 +60,7 @@ class LoggerPropertyVisitor : private Lang::Property::PropertyVisitor {
 			return;
 		}
 
-		pl.currentLoggerTreeNode->value.getLogger()->properties[std::string(object.getName())] = std::string(object.getValue());
+		pl.currentLoggerTreeNode->value.getLogger()->properties[object.normalise(object.getName())] = object.normalise(object.getValue());
 	}
 
 	private: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::CompositeProperty & object) override {
-- 
2.43.0


From e5794f48e28b8a3f5d65408468e2c81a3c449f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:35 +0000
Subject: [PATCH 095/125] fix: an environment configuration accepts type
 specifications by shared pointer

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 3e87870..feb0a14 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -234,7 +234,7 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	                         const std::shared_ptr<Resource::Uri> & firstTypeSpecifications,
 	                         const UriT & ... moreTypeSpecifications)
 		: propertyStringsHierarchy(Impl::EnvironmentConfigurationBuilderUtils::createPropertyStrings({ input }))
-		, typeSpecificationsUris(Util::Vectors::pushBack(firstTypeSpecifications, moreTypeSpecifications ...)) {}
+		, typeSpecificationsUris({ firstTypeSpecifications, moreTypeSpecifications ... }) {}
 
 	///
 	/// Create an environment configuration by specifying a string for the source properties text and the property types via a properties file.
-- 
2.43.0


From 819bc7c371e74a49718d39d4b5045bbebb0573c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:46 +0000
Subject: [PATCH 096/125] fix: revert of d7f147f, which changes no behaviour

---
 src/main/cpp/Balau/Application/Injector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index c530866..5ee8ce3 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -748,11 +748,11 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 
 		static Impl::BindingKey createBindingKey(std::string name) {
-			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Value, U>), std::move(name));
+			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Value, T>), std::move(name));
 		}
 
 		static Impl::BindingKeyView createBindingKeyView(std::string_view name) {
-			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Value, U>), name);
+			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Value, T>), name);
 		}
 
 		explicit GetInstance(const Injector * injector_) : injector(injector_) {}
-- 
2.43.0


From 41dfa0a2fd8c75b2573721ab1a816b56719af622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:42 +0000
Subject: [PATCH 097/125] fix: tests that exit their process, and a first test
 that crashes, are reported by the test runner

---
 .../Impl/MultiProcessTestRunnerExecutor.hpp   | 23 +++++++++++++------
 .../WorkerProcessesTestRunnerExecutor.hpp     | 15 +++++++++---
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
index cb22811..85b70d7 100644
--- a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
@@ -59,7 +59,7 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		// Shared atomic int, providing the next test case index to run.
 		std::atomic_uint nextTestIndex { 0 };
 
-		// Non shared ints, providing the current test case index that a child process is running.
+		// Non shared ints, providing one plus the test case index that a child process is currently running (zero == none).
 		// These are checked when a child process starts up in order to determine if a child process seg-faulted.
 		std::array<unsigned int, TestRunnerLimits::MaxConcurrency> currentTestIndices { 0 };
 	};
@@ -136,12 +136,13 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		const std::string pidStr = getPidString();
 
 		// Check for previous failed test due to segfault of previous child process.
-		unsigned int testIndex = getCurrentTestIndex(childProcessIndex);
-
-		if (testIndex != 0) {
-			reportSegFaultedTest(pidStr, tests[testIndex]);
+		if (hasCurrentTest(childProcessIndex)) {
+			reportSegFaultedTest(pidStr, tests[getCurrentTestIndex(childProcessIndex)]);
+			resetCurrentTestIndex(childProcessIndex);
 		}
 
+		unsigned int testIndex;
+
 		if (singleShot) {
 			testIndex = claimNextTestIndex(childProcessIndex);
 
@@ -160,6 +161,9 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 				}
 
 				runTest(pidStr, tests[testIndex]);
+
+				// Reset current test index (no segfault).
+				resetCurrentTestIndex(childProcessIndex);
 			}
 		}
 	}
@@ -198,8 +202,13 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		return str.str();
 	}
 
+	// Was the child process running a test when it was last seen?
+	protected: bool hasCurrentTest(unsigned int childProcessIndex) {
+		return sharedState->currentTestIndices[childProcessIndex] != 0;
+	}
+
 	private: unsigned int getCurrentTestIndex(unsigned int childProcessIndex) {
-		return sharedState->currentTestIndices[childProcessIndex];
+		return sharedState->currentTestIndices[childProcessIndex] - 1;
 	}
 
 	private: void resetCurrentTestIndex(unsigned int childProcessIndex) {
@@ -208,7 +217,7 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 
 	private: unsigned int claimNextTestIndex(unsigned int childProcessIndex) {
 		unsigned int thisTestIndex = sharedState->nextTestIndex++;
-		sharedState->currentTestIndices[childProcessIndex] = thisTestIndex;
+		sharedState->currentTestIndices[childProcessIndex] = thisTestIndex < tests.size() ? thisTestIndex + 1 : 0;
 		return thisTestIndex;
 	}
 };
diff --git a/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
index 0aef7a0..2dff775 100644
--- a/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
@@ -104,7 +104,9 @@ class WorkerProcessesTestRunnerExecutor : public MultiProcessTestRunnerExecutor
 		siginfo_t infop;
 		int options = WEXITED | WNOHANG; // NOLINT
 
-		for (int & pid : childPids) {
+		for (size_t m = 0; m < childPids.size(); ++m) {
+			int & pid = childPids[m];
+
 			if (pid <= 0) {
 				continue;
 			}
@@ -124,8 +126,15 @@ class WorkerProcessesTestRunnerExecutor : public MultiProcessTestRunnerExecutor
 						}
 
 						pidIndexByPid.erase(pid);
-						// Negative entry in pid vector indicates no regen.
-						pid = -1;
+
+						if (hasCurrentTest((unsigned int) m)) {
+							// The process was exited by the test. A new child process will be created for this slot.
+							pid = 0;
+							childProcessesRegenRequired = true;
+						} else {
+							// Negative entry in pid vector indicates no regen.
+							pid = -1;
+						}
 
 						break;
 					}
-- 
2.43.0


From d2825a6149b93be78240dd69186457da6223ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 098/125] fix: the test runner runs without a report generator

---
 src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index d4fc30e..fdd031c 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -307,7 +307,9 @@ class TestRunnerExecutor {
 							writer << " Group duration (core clock time) = " << durationStr(groupDuration) << "\n";
 
 							// Call the report generator for this completed test group.
-							reportGenerator->generate(*test.group, groupDuration, groupTestResults);
+							if (reportGenerator) {
+								reportGenerator->generate(*test.group, groupDuration, groupTestResults);
+							}
 
 							break;
 						}
-- 
2.43.0


From bd911a27166326ea5bf3763209d5d229ce15e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 099/125] fix: failed assertions with empty texts are rendered
 without reading before them

---
 src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
index f93d541..e643f1e 100644
--- a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
@@ -175,8 +175,8 @@ std::string render(const A & actual, const E & expected) {
 		expectedExtra = true;
 	}
 
-	const bool actualEndsWithNewline = actualString.back() == '\n';
-	const bool expectedEndsWithNewline = expectedString.back() == '\n';
+	const bool actualEndsWithNewline = !actualString.empty() && actualString.back() == '\n';
+	const bool expectedEndsWithNewline = !expectedString.empty() && expectedString.back() == '\n';
 
 	if (actualEndsWithNewline && actualExtra) {
 		builder << std::right << std::setw((int) maxLineNumberWidth) << toString(lineCount)
-- 
2.43.0


From 69cc460b2c58aab6323eba712c0f4915e6d48854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 100/125] fix: failed assertions with long lines are rendered
 without exhausting the stack

---
 .../cpp/Balau/Testing/Impl/StandardRenderers.hpp  | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
index e643f1e..aec4d22 100644
--- a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
@@ -41,14 +41,19 @@ std::string render(const A & actual, const E & expected) {
 	};
 
 	auto stripNewLine = [] (const std::string & input) -> std::string {
-		static const std::regex lineBreakEnding("(.*)(\r\n|\r|\n)");
-		std::smatch match;
+		std::string output = input;
+
+		if (!output.empty() && output.back() == '\n') {
+			output.pop_back();
 
-		if (std::regex_match(input, match, lineBreakEnding)) {
-			return match[1];
+			if (!output.empty() && output.back() == '\r') {
+				output.pop_back();
+			}
+		} else if (!output.empty() && output.back() == '\r') {
+			output.pop_back();
 		}
 
-		return input;
+		return output;
 	};
 
 	using ::toString;
-- 
2.43.0


From 5e0a994f650e63fbc56d20b673179cfb663855c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 101/125] fix: startsWith compares the elements of vectors, not
 their representations

---
 src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
index 12fdc07..9c118bb 100644
--- a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
@@ -247,7 +247,7 @@ template <typename AE> class MatcherFunction<std::vector<AE>, std::vector<AE>, E
 
 	public: bool matches(const std::vector<AE> & actual, const std::vector<AE> & expected) const {
 		// Compilation error? Do the types have the operator functions in scope?
-		return actual.size() >= expected.size() && std::memcmp(actual.data(), expected.data(), expected.size() * sizeof(AE)) == 0;
+		return actual.size() >= expected.size() && std::equal(expected.begin(), expected.end(), actual.begin());
 	}
 
 	public: EvNotUsed value() { return EvNotUsed(); }
-- 
2.43.0


From e56b3cb78ec051670fa713a2936d45bb19c9b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:39 +0000
Subject: [PATCH 102/125] fix: isAlmostEqual of integers whose limits are not
 representable

---
 src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
index 9c118bb..e4d0c1f 100644
--- a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
@@ -226,8 +226,15 @@ template <typename A, typename E, typename V> class MatcherFunction<A, E, V, Mat
 	public: explicit MatcherFunction(const V & errorDelta_) : errorDelta(errorDelta_) {}
 
 	public: bool matches(const A & actual, const E & expected) const {
-		// Compilation error? Do the types have the operator functions in scope?
-		return actual >= expected - errorDelta && actual <= expected + errorDelta;
+		if constexpr (std::is_integral<A>::value && std::is_integral<E>::value && std::is_integral<V>::value) {
+			// The limits may not be representable.
+			using U = unsigned long long;
+			const U difference = actual >= expected ? (U) actual - (U) expected : (U) expected - (U) actual;
+			return errorDelta >= 0 && difference <= (U) errorDelta;
+		} else {
+			// Compilation error? Do the types have the operator functions in scope?
+			return actual >= expected - errorDelta && actual <= expected + errorDelta;
+		}
 	}
 };
 
-- 
2.43.0


From bbadc2a8c41e93afb2edd444744ff43719b63a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:39 +0000
Subject: [PATCH 103/125] fix: concurrent tests can log to an output stream
 writer

---
 src/main/cpp/Balau/Testing/Writers/StdWriters.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp b/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
index 2aabd07..c6de567 100644
--- a/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
+++ b/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
@@ -77,6 +77,7 @@ class OStreamTestWriter : public TestWriter {
 	public: explicit OStreamTestWriter(std::ostream & stream_) : stream(stream_) {}
 
 	public: void writeString(const std::string & str) override {
+		std::lock_guard<std::mutex> lock(mutex);
 		stream << str;
 	}
 
@@ -87,6 +88,7 @@ class OStreamTestWriter : public TestWriter {
 	////////////////////////// Private implementation /////////////////////////
 
 	private: std::ostream & stream;
+	private: std::mutex mutex;
 };
 
 } // namespace Balau::Testing
-- 
2.43.0


From ebf2cae65440cf3264c71994a88d41162dcc0b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:39 +0000
Subject: [PATCH 104/125] fix: the report of test groups with the same name
 contains the tests of all of them

---
 src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index fdd031c..b241ef9 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -296,7 +296,8 @@ class TestRunnerExecutor {
 					groupTestResults.reserve(groupCount);
 
 					for (auto & thisTestResult : testResults) {
-						if (thisTestResult.groupIndex == testResult.groupIndex) {
+						// Groups of the same name are run and reported together.
+						if (tests[thisTestResult.testIndex].group->getGroupName() == testGroupName) {
 							groupTestResults.push_back(&thisTestResult);
 							groupDuration += std::chrono::nanoseconds(thisTestResult.duration);
 						}
-- 
2.43.0


From ef7e150c02f88fd13909bc32c6eb443fb1ed21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:39 +0000
Subject: [PATCH 105/125] fix: test groups that are template instances have
 names

---
 .../cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp   |  7 ++++---
 src/main/cpp/Balau/Testing/TestRunner.hpp           | 13 +------------
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index b241ef9..31bb950 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -465,12 +465,13 @@ class TestRunnerExecutor {
 
 	private: static std::string extractTemplateParameter(const std::string & className) {
 		const size_t startIndex = className.find('<');
-		const size_t endIndex = className.find('>');
-		return className.substr(startIndex + 1, endIndex - (startIndex + 1));
+		const size_t endIndex = className.find_last_of('>');
+		const std::string parameter = className.substr(startIndex + 1, endIndex - (startIndex + 1));
+		return parameter.substr(0, parameter.find_last_not_of(' ') + 1);
 	}
 
 	private: static std::string removeNamespaces(const std::string & className) {
-		const size_t startIndex = className.find_last_of(':');
+		const size_t startIndex = className.substr(0, className.find('<')).find_last_of(':');
 		return startIndex == std::string::npos ? className : className.substr(startIndex + 1);
 	}
 };
diff --git a/src/main/cpp/Balau/Testing/TestRunner.hpp b/src/main/cpp/Balau/Testing/TestRunner.hpp
index 0208ff0..3ac2e74 100644
--- a/src/main/cpp/Balau/Testing/TestRunner.hpp
+++ b/src/main/cpp/Balau/Testing/TestRunner.hpp
@@ -584,19 +584,8 @@ class TestRunner : public Impl::TestRunnerBase {
 	private: void setUseNamespaces(bool useNamespaces_) {
 		std::lock_guard<std::mutex> lock(mutex);
 
+		// The group names are already extracted.
 		useNamespaces = useNamespaces_;
-
-		for (auto & testCaseGroup : testCasesByGroup) {
-			auto & testCaseVector = testCaseGroup.second;
-
-			if (!testCaseVector.empty()) {
-				testCaseVector[0].group->setGroupName(
-					Impl::TestRunnerExecutor::extractTypeName(
-						testCaseVector[0].group->getGroupName().c_str(), useNamespaces
-					)
-				);
-			}
-		}
 	}
 
 	private: void log(const std::string & string) {
-- 
2.43.0


From f65edf54e82e08518ba59eb9eb1acfc032e6f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:53 +0000
Subject: [PATCH 106/125] fix: isNotNull compares with a null pointer that
 exists

---
 src/main/cpp/Balau/Testing/Matchers.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Matchers.hpp b/src/main/cpp/Balau/Testing/Matchers.hpp
index 61bfc4c..ab32b27 100644
--- a/src/main/cpp/Balau/Testing/Matchers.hpp
+++ b/src/main/cpp/Balau/Testing/Matchers.hpp
@@ -50,7 +50,9 @@ inline ExpectedValue<E, MatcherCompareNotEqual, EvNotUsed, EvNotUsed> isNot(cons
 /// Is the actual value not equal to the supplied expected value?
 ///
 inline ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed> isNotNull() {
-	return ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed>(nullptr);
+	// The expected value is held by reference.
+	static void * const null = nullptr;
+	return ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed>(null);
 }
 
 ///
-- 
2.43.0


From 8a06057663779eadbc20e8975dff25da5fa677e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:58 +0000
Subject: [PATCH 107/125] fix: the test writers flush, so that child processes
 neither lose nor repeat output

---
 src/main/cpp/Balau/Testing/Writers/StdWriters.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp b/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
index c6de567..22dd7e0 100644
--- a/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
+++ b/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
@@ -41,7 +41,8 @@ namespace Balau::Testing {
 ///
 class StdOutTestWriter : public TestWriter {
 	public: void writeString(const std::string & str) override {
-		std::cout << str;
+		// Flushed because child processes are forked from and ended without flushing.
+		std::cout << str << std::flush;
 	}
 
 	public: std::unique_ptr<TestWriter> clone() const override {
@@ -57,7 +58,7 @@ class FileTestWriter : public TestWriter {
 
 	public: void writeString(const std::string & str) override {
 		std::lock_guard<std::mutex> lock(mutex);
-		writeResource.writeStream() << str;
+		writeResource.writeStream() << str << std::flush;
 	}
 
 	public: std::unique_ptr<TestWriter> clone() const override {
@@ -78,7 +79,7 @@ class OStreamTestWriter : public TestWriter {
 
 	public: void writeString(const std::string & str) override {
 		std::lock_guard<std::mutex> lock(mutex);
-		stream << str;
+		stream << str << std::flush;
 	}
 
 	public: std::unique_ptr<TestWriter> clone() const override {
-- 
2.43.0


From 763fadffcd88169d23a0b442c4bb1279581e9f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:55 +0000
Subject: [PATCH 108/125] fix: the HTTP server and clients compile with current
 versions of Boost

---
 .../Balau/Network/Http/Server/HttpSession.cpp   |  2 +-
 .../Server/HttpWebApps/CannedHttpWebApp.cpp     |  2 +-
 .../cpp/Balau/Network/Http/Server/WsSession.hpp |  2 +-
 .../Boost/Beast/Http/BasicFileBody.hpp          |  1 -
 src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp |  1 +
 src/main/cpp/Balau/Type/ToStringA.hpp           | 17 +++++++++++++++++
 src/main/cpp/Balau/Type/ToStringS.hpp           | 16 ++++++++++++++++
 7 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
index f6a8654..91921ff 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
@@ -30,7 +30,7 @@ HttpSession::HttpSession(Impl::HttpSessions & httpSessions_,
 	: httpSessions(httpSessions_)
 	, clientSessions(clientSessions_)
 	, serverConfiguration(std::move(serverConfiguration_))
-	, strand(socket_.get_executor())
+	, strand(static_cast<boost::asio::io_context &>(socket_.get_executor().context()).get_executor())
 	, socket(std::move(socket_)) {
 }
 
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/CannedHttpWebApp.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/CannedHttpWebApp.cpp
index f220e3e..ed34048 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/CannedHttpWebApp.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/CannedHttpWebApp.cpp
@@ -44,7 +44,7 @@ void CannedHttpWebApp::handleHeadRequest(HttpSession & session,
 	Response <StringBody> response {Status::ok, request.version()};
 	response.set(Field::server, session.configuration().serverId);
 	response.set(Field::content_type, mimeType);
-	response.set(Field::content_length, getResponseBody.size()); // TODO This is causing a deadlock.
+	response.set(Field::content_length, ::toString(getResponseBody.size())); // TODO This is causing a deadlock.
 	response.keep_alive(request.keep_alive());
 	session.sendResponse(std::move(response));
 }
diff --git a/src/main/cpp/Balau/Network/Http/Server/WsSession.hpp b/src/main/cpp/Balau/Network/Http/Server/WsSession.hpp
index f0b3513..7e30d1b 100644
--- a/src/main/cpp/Balau/Network/Http/Server/WsSession.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/WsSession.hpp
@@ -56,7 +56,7 @@ class WsSession final : public std::enable_shared_from_this<WsSession> {
 	                  TCP::socket && socket_,
 	                  std::string path_)
 		: serverConfiguration(std::move(serverConfiguration_))
-		, strand(socket_.get_executor())
+		, strand(static_cast<boost::asio::io_context &>(socket_.get_executor().context()).get_executor())
 		, socket(std::move(socket_))
 		, path(std::move(path_)) {}
 
diff --git a/src/main/cpp/Balau/ThirdParty/Boost/Beast/Http/BasicFileBody.hpp b/src/main/cpp/Balau/ThirdParty/Boost/Beast/Http/BasicFileBody.hpp
index b928189..b86d457 100644
--- a/src/main/cpp/Balau/ThirdParty/Boost/Beast/Http/BasicFileBody.hpp
+++ b/src/main/cpp/Balau/ThirdParty/Boost/Beast/Http/BasicFileBody.hpp
@@ -15,7 +15,6 @@
 #include <boost/beast/core/detail/config.hpp>
 #include <boost/beast/core/error.hpp>
 #include <boost/beast/core/file_base.hpp>
-#include <boost/beast/core/type_traits.hpp>
 #include <boost/beast/http/message.hpp>
 #include <boost/assert.hpp>
 #include <boost/optional.hpp>
diff --git a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
index 0b5d6b9..7339bbd 100644
--- a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
@@ -22,6 +22,7 @@
 #include <Balau/Exception/BalauException.hpp>
 #include <Balau/Type/Character.hpp>
 
+#include <boost/core/demangle.hpp>
 #include <boost/lexical_cast.hpp>
 #include <boost/locale.hpp>
 
diff --git a/src/main/cpp/Balau/Type/ToStringA.hpp b/src/main/cpp/Balau/Type/ToStringA.hpp
index 268640d..4ade927 100644
--- a/src/main/cpp/Balau/Type/ToStringA.hpp
+++ b/src/main/cpp/Balau/Type/ToStringA.hpp
@@ -32,6 +32,11 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/locale.hpp>
 #include <boost/utility/string_view.hpp>
+#include <boost/version.hpp>
+
+#if BOOST_VERSION >= 108100
+	#include <boost/core/detail/string_view.hpp>
+#endif
 
 #include <forward_list>
 #include <list>
@@ -128,6 +133,18 @@ inline Balau::U8String<AllocatorT> toString(const boost::string_view & value) {
 
 #endif
 
+#if BOOST_VERSION >= 108100
+
+///
+/// Creates a string from the string view used by the Boost Beast library.
+///
+template <typename AllocatorT>
+inline Balau::U8String<AllocatorT> toString(const boost::core::basic_string_view<char> & value) {
+	return Balau::U8String<AllocatorT>(value.data(), value.length());
+}
+
+#endif
+
 ///
 /// Convert the supplied UTF-16 string to a UTF-8 string.
 ///
diff --git a/src/main/cpp/Balau/Type/ToStringS.hpp b/src/main/cpp/Balau/Type/ToStringS.hpp
index d41f0d4..07a6e40 100644
--- a/src/main/cpp/Balau/Type/ToStringS.hpp
+++ b/src/main/cpp/Balau/Type/ToStringS.hpp
@@ -30,6 +30,11 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/locale.hpp>
+#include <boost/version.hpp>
+
+#if BOOST_VERSION >= 108100
+	#include <boost/core/detail/string_view.hpp>
+#endif
 
 #include <complex>
 #include <forward_list>
@@ -76,6 +81,17 @@ inline std::string toString(const boost::string_view & value) {
 
 #endif
 
+#if BOOST_VERSION >= 108100
+
+///
+/// Creates a string from the string view used by the Boost Beast library.
+///
+inline std::string toString(const boost::core::basic_string_view<char> & value) {
+	return std::string(value.data(), value.length());
+}
+
+#endif
+
 ///
 /// Convert the supplied UTF-16 string to a UTF-8 string.
 ///
-- 
2.43.0


From 8dc1607d5d1c6a66d83828d3049bc01a9db2d5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 109/125] fix: HTTP sessions with illegal paths, failing reads
 and vanished clients neither crash nor stay open

---
 .../Balau/Network/Http/Server/HttpSession.cpp | 27 ++++++++++---------
 .../Balau/Network/Http/Server/HttpSession.hpp |  5 ++--
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
index 91921ff..6356667 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
@@ -54,20 +54,28 @@ void HttpSession::doRead() {
 }
 
 void HttpSession::close() {
-	strand.post(std::bind(&HttpSession::doClose, this), allocator);
+	strand.post(std::bind(&HttpSession::doClose, shared_from_this()), allocator);
 }
 
 void HttpSession::onRead(boost::system::error_code errorCode, std::size_t bytesTransferred) {
 	boost::ignore_unused(bytesTransferred);
 
-	parseCookies();
-
-	if (!validateRequest(errorCode, request)) {
+	if (errorCode == Error::end_of_stream) {
+		doClose(); // The client closed the connection.
+		return;
+	} else if (errorCode) {
+		BalauBalauLogWarn(serverConfiguration->logger, "HttpSession request error: {}", errorCode);
+		doClose();
 		return;
 	}
 
+	parseCookies();
 	setClientSession();
 
+	if (!validateRequest(request)) {
+		return;
+	}
+
 	// Check for WebSocket upgrade.
 	if (WS::is_upgrade(request)) {
 		// ASIO states that following the socket move, the moved-from socket is in the same
@@ -78,21 +86,14 @@ void HttpSession::onRead(boost::system::error_code errorCode, std::size_t bytesT
 			std::move(request)
 		);
 
+		httpSessions.unregisterSession(shared_from_this());
 		return;
 	} else {
 		handleRequest(request);
 	}
 }
 
-bool HttpSession::validateRequest(boost::system::error_code errorCode, const StringRequest & request) {
-	if (errorCode == Error::end_of_stream) {
-		doClose(); // The client closed the connection.
-		return false;
-	} else if (errorCode) {
-		BalauBalauLogWarn(serverConfiguration->logger, "HttpSession request error: {}", errorCode);
-		return false;
-	}
-
+bool HttpSession::validateRequest(const StringRequest & request) {
 	const auto target = request.target();
 
 	if (target.empty() || target[0] != '/' || target.find("..") != boost::string_view::npos) {
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp b/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp
index 73675d1..2ca8ec7 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp
@@ -77,7 +77,8 @@ class HttpSession final : public std::enable_shared_from_this<HttpSession> {
 	/// Get the requester's IP address for logging.
 	///
 	public: Address remoteIpAddress() const {
-		return socket.remote_endpoint().address();
+		boost::system::error_code errorCode;
+		return socket.remote_endpoint(errorCode).address();
 	}
 
 	///
@@ -158,7 +159,7 @@ class HttpSession final : public std::enable_shared_from_this<HttpSession> {
 
 	// Validate the request path.
 	// TODO Add other required validations.
-	private: bool validateRequest(boost::system::error_code errorCode, const StringRequest & request);
+	private: bool validateRequest(const StringRequest & request);
 
 	// Dispatch the request to the appropriate handler method.
 	private: void handleRequest(const StringRequest & request) {
-- 
2.43.0


From caedb795efb838bf287cef4381ccf66545b5aa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 110/125] fix: responses to HEAD requests have no body

---
 .../Balau/Network/Http/Server/HttpSession.cpp | 22 ++++++++++++++++++-
 .../Balau/Network/Http/Server/HttpSession.hpp | 18 ++++++---------
 .../Server/HttpWebApps/FailingHttpWebApp.cpp  |  2 +-
 .../HttpWebApps/RedirectingHttpWebApp.cpp     |  6 ++++-
 4 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
index 6356667..6f48bda 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
@@ -97,13 +97,33 @@ bool HttpSession::validateRequest(const StringRequest & request) {
 	const auto target = request.target();
 
 	if (target.empty() || target[0] != '/' || target.find("..") != boost::string_view::npos) {
-		sendResponse(HttpWebApp::createBadRequestResponse(*this, request, "Illegal path in request."));
+		sendBadRequestResponse("Illegal path in request.");
 		return false;
 	}
 
 	return true;
 }
 
+void HttpSession::sendBadRequestResponse(std::string_view errorMessage) {
+	if (request.method() == Method::head) {
+		sendResponse(HttpWebApp::createBadRequestHeadResponse(*this, request));
+	} else {
+		sendResponse(HttpWebApp::createBadRequestResponse(*this, request, errorMessage));
+	}
+}
+
+void HttpSession::sendServerErrorResponse() {
+	if (request.method() == Method::head) {
+		sendResponse(HttpWebApp::createServerErrorHeadResponse(*this, request));
+	} else {
+		sendResponse(
+			HttpWebApp::createServerErrorResponse(
+				*this, request, "The server experienced an error during the request. A report has been logged."
+			)
+		);
+	}
+}
+
 void HttpSession::onWrite(boost::system::error_code errorCode, std::size_t bytesTransferred, bool close) {
 	boost::ignore_unused(bytesTransferred);
 
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp b/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp
index 2ca8ec7..d384d16 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp
@@ -184,27 +184,23 @@ class HttpSession final : public std::enable_shared_from_this<HttpSession> {
 				}
 
 				default: {
-					sendResponse(HttpWebApp::createBadRequestResponse(*this, request, "Unsupported HTTP method."));
+					sendBadRequestResponse("Unsupported HTTP method.");
 					break;
 				}
 			}
 		} catch (const std::exception & e) {
 			BalauBalauLogError(serverConfiguration->logger, "Exception thrown during request: {}", e);
-			sendResponse(
-				HttpWebApp::createServerErrorResponse(
-					*this, request, "The server experienced an error during the request. A report has been logged."
-				)
-			);
+			sendServerErrorResponse();
 		} catch (...) {
 			BalauBalauLogError(serverConfiguration->logger, "Unknown exception thrown during request: {}");
-			sendResponse(
-				HttpWebApp::createServerErrorResponse(
-					*this, request, "The server experienced an error during the request. A report has been logged."
-				)
-			);
+			sendServerErrorResponse();
 		}
 	}
 
+	// Send a bad request or server error response, without a body for HEAD requests.
+	private: void sendBadRequestResponse(std::string_view errorMessage);
+	private: void sendServerErrorResponse();
+
 	private: void onWrite(boost::system::error_code errorCode, std::size_t bytesTransferred, bool close);
 	private: void doClose();
 	private: void parseCookies();
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.cpp
index 59bb9ae..6d501f6 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.cpp
@@ -33,7 +33,7 @@ void FailingHttpWebApp::handleGetRequest(HttpSession & session,
 void FailingHttpWebApp::handleHeadRequest(HttpSession & session,
                                           const StringRequest & request,
                                           std::map<std::string, std::string> & ) {
-	session.sendResponse(createNotFoundStringResponse(session, request));
+	session.sendResponse(createNotFoundHeadResponse(session, request));
 }
 
 void FailingHttpWebApp::handlePostRequest(HttpSession & session,
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
index fe1db5d..46a3953 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
@@ -78,7 +78,11 @@ void RedirectingHttpWebApp::handle(HttpSession & session,
 		}
 	}
 
-	session.sendResponse(createNotFoundStringResponse(session, request));
+	if (request.method() == Method::head) {
+		session.sendResponse(createNotFoundHeadResponse(session, request));
+	} else {
+		session.sendResponse(createNotFoundStringResponse(session, request));
+	}
 }
 
 std::vector<RedirectingHttpWebApp::Redirection>
-- 
2.43.0


From a8ae256f986ce32fe46410f8857e6e6e565a48c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:44 +0000
Subject: [PATCH 111/125] fix: requests are routed to the nearest handler of
 their path, without its query

---
 .../Server/HttpWebApps/RoutingHttpWebApp.hpp  | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp
index 79b2b48..204e4d8 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp
@@ -133,18 +133,26 @@ class RoutingHttpWebApp : public HttpWebApp {
 
 	///////////////////////// Private implementation //////////////////////////
 
-	//private: HttpWebApp * resolve(HttpSession & session, const StringRequest & request);
+	//
+	// Get the handler of the node that is nearest to the path, ignoring nodes
+	// that do not have a handler for the method.
+	//
 	private: HttpWebApp * resolve(HttpSession & session, const StringRequest & request) {
-		const std::string_view & path = std::string_view(request.target().data(), request.target().length());
+		const auto target = std::string_view(request.target().data(), request.target().length());
+		const std::string_view path = target.substr(0, target.find('?'));
 		auto pathComponents = Util::Strings::split(path, "/");
 		std::vector<std::string_view> components;
 		components.reserve(pathComponents.size() + 1);
 		components.emplace_back("");
 		Util::Vectors::append(components, pathComponents);
 
-		Node * node = routing.findNearest(components, [] (auto & lhs, auto & rhs) { return std::get<KeyIndex>(lhs) == rhs; }, false);
+		while (!components.empty()) {
+			Node * node = routing.findNearest(components, [] (auto & lhs, auto & rhs) { return std::get<KeyIndex>(lhs) == rhs; }, false);
+
+			if (node == nullptr) {
+				break;
+			}
 
-		if (node != nullptr) {
 			HttpWebApp * handler;
 
 			switch (request.method()) {
@@ -172,6 +180,9 @@ class RoutingHttpWebApp : public HttpWebApp {
 			if (handler != nullptr) {
 				return handler;
 			}
+
+			// Continue with the ancestors of the node.
+			components.pop_back();
 		}
 
 		// No handler found for method.
-- 
2.43.0


From a5689f90ef8a67c4cdd9ee21976fffe2093374a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:23 +0000
Subject: [PATCH 112/125] fix: the file server's index files are configured by
 the index property, and a file that cannot be opened is answered once

---
 .../HttpWebApps/FileServingHttpWebApp.cpp     | 43 +++++++++++++------
 .../HttpWebApps/FileServingHttpWebApp.hpp     |  8 +++-
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp
index 92be140..dc18465 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp
@@ -26,7 +26,7 @@ namespace Balau::Network::Http::HttpWebApps {
 
 FileServingHttpWebApp::FileServingHttpWebApp(Resource::File documentRoot_, std::string defaultFile_)
 	: documentRoot(std::move(documentRoot_))
-	, defaultFile(std::move(defaultFile_)) {}
+	, defaultFiles({ std::move(defaultFile_) }) {}
 
 Resource::File determineDocumentRoot(const EnvironmentProperties & configuration) {
 	if (!configuration.hasUnique<Resource::Uri>("root")) {
@@ -48,9 +48,17 @@ Resource::File determineDocumentRoot(const EnvironmentProperties & configuration
 	return *file;
 }
 
+// Blank delimited list of file names.
+std::vector<std::string> determineDefaultFiles(const EnvironmentProperties & configuration) {
+	static const std::regex delimiter("[ \t]+");
+	const auto index = configuration.getValue<std::string>("index", "index.html");
+	const auto names = Util::Strings::splitAndTrim(index, delimiter);
+	return std::vector<std::string>(names.begin(), names.end());
+}
+
 FileServingHttpWebApp::FileServingHttpWebApp(const EnvironmentProperties & configuration, const BalauLogger & logger)
 	: documentRoot(determineDocumentRoot(configuration))
-	, defaultFile(configuration.getValue<std::string>("root", "index.html")) {}
+	, defaultFiles(determineDefaultFiles(configuration)) {}
 
 void FileServingHttpWebApp::handleGetRequest(HttpSession & session,
                                              const StringRequest & request,
@@ -63,7 +71,11 @@ void FileServingHttpWebApp::handleGetRequest(HttpSession & session,
 	}
 
 	const auto pathStr = path.toRawString();
-	auto body = getBody(session, request, pathStr);
+	FileBodyValue body;
+
+	if (!openBody(session, request, pathStr, body)) {
+		return;
+	}
 
 	Response<FileBody> response{
 		  std::piecewise_construct
@@ -119,22 +131,29 @@ void FileServingHttpWebApp::handlePostRequest(HttpSession & session,
 }
 
 Resource::File FileServingHttpWebApp::resolvePath(HttpSession & session, const StringRequest & request) {
-	const auto target = request.target();
+	const auto target = std::string_view(request.target().data(), request.target().length());
+	const std::string targetPath(target.substr(0, target.find('?')));
 
-	Resource::File path = documentRoot / std::string(target.begin(), target.end());
+	Resource::File path = documentRoot / targetPath;
 
 	// Append default file if no file specified?
-	if (!defaultFile.empty() && target.back() == '/') {
-		path /= defaultFile;
+	if (targetPath.back() == '/') {
+		for (const auto & defaultFile : defaultFiles) {
+			Resource::File file = path / defaultFile;
+
+			if (file.exists() && file.isRegularFile()) {
+				return file;
+			}
+		}
 	}
 
 	return path;
 }
 
-FileBodyValue FileServingHttpWebApp::getBody(HttpSession & session,
-                                            const StringRequest & request,
-                                            const std::string & pathStr) {
-	FileBodyValue body;
+bool FileServingHttpWebApp::openBody(HttpSession & session,
+                                     const StringRequest & request,
+                                     const std::string & pathStr,
+                                     FileBodyValue & body) {
 	BoostSystemErrorCode errorCode;
 	body.open(pathStr.c_str(), FileMode::scan, errorCode);
 
@@ -144,7 +163,7 @@ FileBodyValue FileServingHttpWebApp::getBody(HttpSession & session,
 		session.sendResponse(createServerErrorResponse(session, request, errorCode.message()));
 	}
 
-	return body;
+	return !errorCode;
 }
 
 } // namespace Balau::Network::Http::HttpWebApps
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.hpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.hpp
index 8721f40..abc58bb 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.hpp
@@ -70,10 +70,14 @@ class FileServingHttpWebApp : public HttpWebApp {
 
 	private: Resource::File resolvePath(HttpSession & session, const StringRequest & request);
 
-	private: FileBodyValue getBody(HttpSession & session, const StringRequest & request, const std::string & pathStr);
+	// Open the file. If this is not possible, an error response is sent and false is returned.
+	private: bool openBody(HttpSession & session,
+	                       const StringRequest & request,
+	                       const std::string & pathStr,
+	                       FileBodyValue & body);
 
 	private: const Resource::File documentRoot;
-	private: const std::string defaultFile;
+	private: const std::vector<std::string> defaultFiles;
 };
 
 } // namespace HttpWebApps::Http::Network
-- 
2.43.0


From 6ee1b78fef4b6868c786d171b49aab8b6ad69bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:23 +0000
Subject: [PATCH 113/125] fix: redirections without a position do not replace
 each other

---
 .../HttpWebApps/RedirectingHttpWebApp.cpp       | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
index 46a3953..f276c6d 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
@@ -91,7 +91,7 @@ RedirectingHttpWebApp::buildRedirections(const EnvironmentProperties & configura
 		return std::vector<Redirection>();
 	}
 
-	std::map<size_t, Redirection> redirectionMap;
+	std::multimap<size_t, Redirection> redirectionMap;
 	auto matches = configuration.getComposite("matches");
 
 	for (const auto & match : *matches) {
@@ -139,11 +139,14 @@ RedirectingHttpWebApp::buildRedirections(const EnvironmentProperties & configura
 				std::regex matcher(regexStr);
 				std::vector<RedirectingHttpWebApp::PathComponent> pathComponents = buildPathComponents(path);
 
-				redirectionMap[position] = Redirection(
-					matcher, code, pathComponents
-					#ifdef BALAU_DEBUG
-					, regexStr
-					#endif
+				redirectionMap.emplace(
+					  position
+					, Redirection(
+						matcher, code, pathComponents
+						#ifdef BALAU_DEBUG
+						, regexStr
+						#endif
+					)
 				);
 			} catch (const std::regex_error &) {
 				BalauBalauLogError(
@@ -169,7 +172,7 @@ RedirectingHttpWebApp::buildRedirections(const EnvironmentProperties & configura
 	std::for_each(
 		  redirectionMap.begin()
 		, redirectionMap.end()
-		, [&paths] (const std::map<size_t, Redirection>::value_type & pair) { paths.push_back(pair.second); }
+		, [&paths] (const std::multimap<size_t, Redirection>::value_type & pair) { paths.push_back(pair.second); }
 	);
 
 	return paths;
-- 
2.43.0


From 3a3e17b169d126c0b807fb04141f16b281a5894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:23 +0000
Subject: [PATCH 114/125] fix: configured media types have blank delimited
 extensions in any case

---
 src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
index 861ebd5..2cc775e 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
@@ -267,17 +267,20 @@ std::shared_ptr<MimeTypes> HttpServer::createMimeTypes(const std::shared_ptr<Env
 		return MimeTypes::defaultMimeTypes;
 	}
 
+	// Blank delimited lists of extensions.
+	static const std::regex delimiter("[ \t,]+");
+
 	std::unordered_map<std::string, std::string> data;
 
 	for (const auto & mimeTypesProperty : *mimeTypesProperties) {
 		if (mimeTypesProperty.isValue<std::string>()) {
 			auto mimeType = std::string(mimeTypesProperty.getName());
 			auto extensions = mimeTypesProperty.getValue<std::string>();
-			auto extensionList = Util::Strings::split(extensions, ",");
+			auto extensionList = Util::Strings::splitAndTrim(extensions, delimiter);
 			auto mt = Util::Strings::trim(mimeType);
 
 			for (auto extension : extensionList) {
-				auto ext = Util::Strings::trim(extension);
+				auto ext = Util::Strings::toLower(extension);
 				data.insert(std::make_pair(ext, mt));
 			}
 		} else {
-- 
2.43.0


From b6f5f17ce102474294dd76541977a2a4cce8740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 115/125] fix: the WebSocket client uses the connected socket,
 and responses to HEAD requests are read without a body

---
 src/main/cpp/Balau/Network/Http/Client/HttpClient.hpp  |  7 +++++--
 src/main/cpp/Balau/Network/Http/Client/HttpsClient.hpp |  7 +++++--
 src/main/cpp/Balau/Network/Http/Client/WsClient.hpp    | 10 ++++------
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Client/HttpClient.hpp b/src/main/cpp/Balau/Network/Http/Client/HttpClient.hpp
index 920cab1..bc5b71d 100644
--- a/src/main/cpp/Balau/Network/Http/Client/HttpClient.hpp
+++ b/src/main/cpp/Balau/Network/Http/Client/HttpClient.hpp
@@ -221,8 +221,11 @@ ResponseT HttpClient::sendRequest(Method verb, const std::string_view & path, co
 	HTTP::write(socket, request);
 
 	Buffer buffer {};
-	ResponseT response;
-	HTTP::read(socket, buffer, response);
+	// The response to a HEAD request has no body, whatever its fields say.
+	HTTP::response_parser<typename ResponseT::body_type> parser;
+	parser.skip(verb == Method::head);
+	HTTP::read(socket, buffer, parser);
+	ResponseT response = parser.release();
 
 	////////////// Disconnect /////////////
 
diff --git a/src/main/cpp/Balau/Network/Http/Client/HttpsClient.hpp b/src/main/cpp/Balau/Network/Http/Client/HttpsClient.hpp
index 7aa6b02..d5de178 100644
--- a/src/main/cpp/Balau/Network/Http/Client/HttpsClient.hpp
+++ b/src/main/cpp/Balau/Network/Http/Client/HttpsClient.hpp
@@ -143,8 +143,11 @@ class HttpsClient : public HttpClient {
 		HTTP::write(stream, request);
 
 		Buffer buffer {};
-		ResponseT response;
-		HTTP::read(stream, buffer, response);
+		// The response to a HEAD request has no body, whatever its fields say.
+		HTTP::response_parser<typename ResponseT::body_type> parser;
+		parser.skip(verb == Method::head);
+		HTTP::read(stream, buffer, parser);
+		ResponseT response = parser.release();
 		boost::system::error_code errorCode {};
 		stream.shutdown(errorCode);
 
diff --git a/src/main/cpp/Balau/Network/Http/Client/WsClient.hpp b/src/main/cpp/Balau/Network/Http/Client/WsClient.hpp
index c91c3d9..d7879b2 100644
--- a/src/main/cpp/Balau/Network/Http/Client/WsClient.hpp
+++ b/src/main/cpp/Balau/Network/Http/Client/WsClient.hpp
@@ -84,12 +84,10 @@ class WsClient {
 
 		boost::asio::io_context ioc;
 		TCP::resolver resolver { ioc };
-		TCP::socket socket { ioc };
+		WS::stream<TCP::socket> ws { ioc };
 
 		auto resolverResults = resolver.resolve(host.c_str(), ::toString(port).c_str());
-		boost::asio::connect(socket, resolverResults.begin(), resolverResults.end());
-
-		WS::stream<TCP::socket> ws { ioc };
+		boost::asio::connect(ws.next_layer(), resolverResults.begin(), resolverResults.end());
 
 		ws.handshake(host, path.empty() ? "/" : std::string(path));
 		ws.write(requestData);
@@ -102,7 +100,7 @@ class WsClient {
 		////////////// Disconnect /////////////
 
 		boost::system::error_code errorCode {};
-		socket.shutdown(TCP::socket::shutdown_both, errorCode);
+		ws.next_layer().shutdown(TCP::socket::shutdown_both, errorCode);
 
 		// TODO clarify the following.
 		if (errorCode && errorCode != boost::system::errc::not_connected) {
@@ -122,4 +120,4 @@ class WsClient {
 
 } // namespace Balau::Network::Http
 
-#endif // COM_BORA_SOFTWARE__BALAU_NETWORK_HTTP_CLIENT__HTTPS_CLIENT
+#endif // COM_BORA_SOFTWARE__BALAU_NETWORK_HTTP_CLIENT__WS_CLIENT
-- 
2.43.0


From 8ee9005d9335b7935f2370197e1dec4f2702e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 116/125] fix: the canned and failing web applications can be
 configured, as documented

---
 src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp |  4 ++++
 .../Http/Server/HttpWebApps/FailingHttpWebApp.hpp     | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
index 2cc775e..b70d662 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
@@ -18,7 +18,9 @@
 //
 
 #include "HttpServer.hpp"
+#include "Balau/Network/Http/Server/HttpWebApps/CannedHttpWebApp.hpp"
 #include "Balau/Network/Http/Server/HttpWebApps/EmailSendingHttpWebApp.hpp"
+#include "Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.hpp"
 #include "Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.hpp"
 #include "Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.hpp"
 #include "HttpWebApps/RoutingHttpWebApp.hpp"
@@ -41,6 +43,8 @@ namespace Balau::Network::Http {
 // The built-in web applications are registered here.
 struct HttpServerRegisterBuiltInWeApps {
 	HttpServerRegisterBuiltInWeApps() {
+		Impl::HttpWebAppFactory::registerHttpWebApp<HttpWebApps::CannedHttpWebApp>("canned");
+		Impl::HttpWebAppFactory::registerHttpWebApp<HttpWebApps::FailingHttpWebApp>("failing");
 		Impl::HttpWebAppFactory::registerHttpWebApp<HttpWebApps::FileServingHttpWebApp>("files");
 		Impl::HttpWebAppFactory::registerHttpWebApp<HttpWebApps::RedirectingHttpWebApp>("redirections");
 		#ifdef BALAU_ENABLE_CURL
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.hpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.hpp
index 0a12c5f..ab072e6 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.hpp
@@ -31,10 +31,21 @@
 namespace Balau{
 
 class BalauLogger;
+class EnvironmentProperties;
 
 namespace Network::Http::HttpWebApps {
 
 class FailingHttpWebApp : public HttpWebApp {
+	///
+	/// Create a failing HTTP web application.
+	///
+	public: FailingHttpWebApp() = default;
+
+	///
+	/// Constructor called by the HTTP server from environment configuration (which is empty).
+	///
+	public: FailingHttpWebApp(const EnvironmentProperties & , const BalauLogger & ) {}
+
 	public: void handleGetRequest(HttpSession & session,
 	                              const StringRequest & request,
 	                              std::map<std::string, std::string> & variables) override;
-- 
2.43.0


From 37684bb098a33e06f8b7d3971f697c4f639b3b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 117/125] fix: endpoints with bracketed IPv6 addresses are
 accepted

---
 .../cpp/Balau/Network/Http/Server/NetworkTypes.hpp  | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/NetworkTypes.hpp b/src/main/cpp/Balau/Network/Http/Server/NetworkTypes.hpp
index 2c1ced4..45d60d8 100644
--- a/src/main/cpp/Balau/Network/Http/Server/NetworkTypes.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/NetworkTypes.hpp
@@ -96,6 +96,13 @@ inline void fromString(tcp::endpoint & endpoint, std::string_view value) {
 	// TODO improve implementation (ipv4 / ipv6).
 
 	const auto v = std::string(value);
+
+	// IPv6 addresses may be enclosed within brackets.
+	const auto makeAddress = [] (const std::string & text) {
+		const bool bracketed = text.length() > 1 && text.front() == '[' && text.back() == ']';
+		return bracketed ? address(make_address_v6(text.substr(1, text.length() - 2))) : make_address(text);
+	};
+
 	static const std::regex numeric("[0-9]+");
 
 	const bool isPortOnly = std::regex_match(v, numeric);
@@ -111,18 +118,18 @@ inline void fromString(tcp::endpoint & endpoint, std::string_view value) {
 
 	if (lastColon == std::string::npos) {
 		// No port.
-		endpoint = tcp::endpoint(make_address(v), 8080);
+		endpoint = tcp::endpoint(makeAddress(v), 8080);
 	} else {
 		auto portStr = value.substr(lastColon + 1);
 
 		if (Balau::Util::Strings::contains(portStr, "]")) {
 			// No port.
-			endpoint = tcp::endpoint(make_address(v), 8080);
+			endpoint = tcp::endpoint(makeAddress(v), 8080);
 		} else {
 			auto ip = value.substr(0, lastColon);;
 			unsigned short port;
 			::fromString(port, portStr);
-			endpoint = tcp::endpoint(make_address(std::string(ip)), port);
+			endpoint = tcp::endpoint(makeAddress(std::string(ip)), port);
 		}
 	}
 }
-- 
2.43.0


From d426186dae88035b929dfb5de985dcde2a594c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:55 +0000
Subject: [PATCH 118/125] fix: the HTTP server can be started synchronously,
 stopped and started again, and reports a failing listener to the caller

---
 .../Balau/Network/Http/Server/HttpServer.cpp  | 89 ++++++++++---------
 .../Balau/Network/Http/Server/HttpServer.hpp  | 10 ++-
 .../Network/Http/Server/Impl/Listener.hpp     | 22 ++++-
 3 files changed, 77 insertions(+), 44 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
index b70d662..e468c77 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
@@ -59,17 +59,15 @@ HttpServerRegisterBuiltInWeApps httpServerRegisterBuiltInWeApps; // NOLINT
 
 HttpServer::HttpServer(std::shared_ptr<System::Clock> clock,
                        const std::shared_ptr<EnvironmentProperties>& configuration,
-                       bool registerSignalHandler)
+                       bool registerSignalHandler_)
 	: state(createState(std::move(clock), configuration))
 	, threadNamePrefix(configuration->getValue<std::string>("thread.name.prefix", ""))
-	, workerCount((size_t) configuration->getValue<int>("worker.count", 1))
+	, workerCount(determineWorkerCount((size_t) configuration->getValue<int>("worker.count", 1)))
 	, launched(new std::atomic_uint { 0U })
-	, ioContext(new boost::asio::io_context(configuration->getValue<int>("worker.count", 1)))
+	, runningSync(new std::atomic_bool { false })
 	, mutex(new std::mutex)
-	, signalSet(new boost::asio::signal_set(*ioContext)) {
-	if (registerSignalHandler) {
-		doRegisterSignalHandler();
-	}
+	, registerSignalHandler(registerSignalHandler_) {
+	createContext();
 }
 
 HttpServer::HttpServer(std::shared_ptr<System::Clock> clock,
@@ -82,7 +80,7 @@ HttpServer::HttpServer(std::shared_ptr<System::Clock> clock,
                        const std::string & loggingNamespace,
                        std::string sessionCookieName,
                        std::shared_ptr<MimeTypes> mimeTypes,
-                       bool registerSignalHandler)
+                       bool registerSignalHandler_)
 	: state(
 		std::make_shared<HttpServerConfiguration>(
 			  std::move(clock)
@@ -96,14 +94,12 @@ HttpServer::HttpServer(std::shared_ptr<System::Clock> clock,
 		)
 	)
 	, threadNamePrefix(std::move(threadNamePrefix_))
-	, workerCount(workerCount_)
+	, workerCount(determineWorkerCount(workerCount_))
 	, launched(new std::atomic_uint { 0U })
-	, ioContext(new boost::asio::io_context((int) workerCount))
+	, runningSync(new std::atomic_bool { false })
 	, mutex(new std::mutex)
-	, signalSet(new boost::asio::signal_set(*ioContext)) {
-	if (registerSignalHandler) {
-		doRegisterSignalHandler();
-	}
+	, registerSignalHandler(registerSignalHandler_) {
+	createContext();
 }
 
 HttpServer::HttpServer(std::shared_ptr<System::Clock> clock,
@@ -140,32 +136,19 @@ HttpServer::~HttpServer() {
 void HttpServer::startAsync() {
 	std::unique_lock<std::mutex> lock(*mutex);
 
-	if (!workers.empty()) {
+	if (listener) {
 		BalauBalauLogWarn(state->logger, "HTTP server {}:{} already running", state->endpoint.address(), state->endpoint.port());
 		return;
 	}
 
 	BalauBalauLogInfo(state->logger, "Starting HTTP server {}:{}", state->endpoint.address(), state->endpoint.port());
 
-	ioContext->restart();
+	launchListener();
+
 	workers.reserve(workerCount);
 	launched->store(0U);
 
-	// Launch the first worker thread that also launches the listener.
-	workers.emplace_back(
-		[this] {
-			launchListener();
-			workerThreadFunction(0);
-		}
-	);
-
-	// Wait until the listener launching thread has started.
-	while (launched->load() != 1U) {
-		System::Sleep::milliSleep(10);
-	}
-
-	// Launch the remaining worker threads.
-	for (size_t workerIndex = 0; workerIndex < workerCount - 1; workerIndex++) {
+	for (size_t workerIndex = 0; workerIndex < workerCount; workerIndex++) {
 		workers.emplace_back([workerIndex, this] { workerThreadFunction(workerIndex); });
 	}
 
@@ -177,15 +160,13 @@ void HttpServer::startAsync() {
 void HttpServer::startSync() {
 	std::unique_lock<std::mutex> lock(*mutex);
 
-	if (!workers.empty()) {
+	if (listener) {
 		BalauBalauLogWarn(state->logger, "HTTP server {}:{} already running", state->endpoint.address(), state->endpoint.port());
 		return;
 	}
 
 	BalauBalauLogInfo(state->logger, "Starting HTTP server {}:{}", state->endpoint.address(), state->endpoint.port());
 
-	ioContext->restart();
-
 	// This thread will be one of the IO context threads.
 	launchListener();
 
@@ -199,8 +180,12 @@ void HttpServer::startSync() {
 	// Last worker is on this thread.
 	const std::string previousThreadName = System::ThreadName::getName();
 
+	runningSync->store(true);
+	lock.unlock();
+
 	workerThreadFunction(workerCount - 1);
 
+	runningSync->store(false);
 	stop(false);
 
 	System::ThreadName::setName(previousThreadName);
@@ -208,13 +193,13 @@ void HttpServer::startSync() {
 
 bool HttpServer::isRunning() {
 	std::lock_guard<std::mutex> lock(*mutex);
-	return !workers.empty();
+	return (bool) listener;
 }
 
 void HttpServer::stop(bool warn) {
 	std::lock_guard<std::mutex> lock(*mutex);
 
-	if (workers.empty()) {
+	if (!listener) {
 		if (warn) {
 			BalauBalauLogWarn(
 				state->logger, "HTTP server {}:{} already stopped", state->endpoint.address(), state->endpoint.port()
@@ -226,19 +211,23 @@ void HttpServer::stop(bool warn) {
 
 	BalauBalauLogInfo(state->logger, "Stopping HTTP server {}:{}", state->endpoint.address(), state->endpoint.port());
 
-	listener->close();
 	ioContext->stop();
 
-	while (!ioContext->stopped()) {
-		System::Sleep::milliSleep(10);
-	}
-
 	for (auto & worker : workers) {
 		worker.join();
 	}
 
+	while (runningSync->load()) {
+		System::Sleep::milliSleep(10);
+	}
+
 	workers.clear();
 
+	// The remaining operations and their sessions are destroyed with the context.
+	listener->doClose();
+	listener.reset();
+	createContext();
+
 	BalauBalauLogInfo(state->logger, "HTTP server {}:{} stopped", state->endpoint.address(), state->endpoint.port());
 }
 
@@ -416,6 +405,20 @@ void HttpServer::addToHttpRoutingTrie(HttpWebApps::RoutingHttpWebApp::Routing &
 	}
 }
 
+size_t HttpServer::determineWorkerCount(size_t requestedCount) {
+	return requestedCount != 0 ? requestedCount : std::max<size_t>(1, std::thread::hardware_concurrency());
+}
+
+void HttpServer::createContext() {
+	signalSet.reset();
+	ioContext.reset(new boost::asio::io_context((int) workerCount));
+	signalSet.reset(new boost::asio::signal_set(*ioContext));
+
+	if (registerSignalHandler) {
+		doRegisterSignalHandler();
+	}
+}
+
 void HttpServer::launchListener() {
 	listener = std::make_unique<Impl::Listener>(state, *ioContext);
 
@@ -500,6 +503,10 @@ void HttpServer::doRegisterSignalHandler() {
 }
 
 void HttpServer::handleSignal(const boost::system::error_code & error, int sig) {
+	if (error) {
+		return;
+	}
+
 	switch (sig) {
 		case SIGINT: {
 			write(STDERR_FILENO, "Shutting down HTTP server due to signal SIGINT.\n", 48);
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpServer.hpp b/src/main/cpp/Balau/Network/Http/Server/HttpServer.hpp
index f43ed83..1e995a0 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpServer.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpServer.hpp
@@ -245,10 +245,12 @@ class HttpServer {
 		, workerCount(rhs.workerCount)
 		, workers(std::move(rhs.workers))
 		, launched(std::move(rhs.launched))
+		, runningSync(std::move(rhs.runningSync))
 		, listener(std::move(rhs.listener))
 		, ioContext(std::move(rhs.ioContext))
 		, mutex(std::move(rhs.mutex))
-		, signalSet(std::move(rhs.signalSet)) {}
+		, signalSet(std::move(rhs.signalSet))
+		, registerSignalHandler(rhs.registerSignalHandler) {}
 
 	//
 	// Create the HTTP server configuration object.
@@ -288,6 +290,10 @@ class HttpServer {
 	                                          const std::string & locationStr,
 	                                          std::shared_ptr<HttpWebApp> & webApp);
 
+	// A worker count of zero requests one worker per CPU core.
+	private: static size_t determineWorkerCount(size_t requestedCount);
+
+	private: void createContext();
 	private: void launchListener();
 	private: void workerThreadFunction(size_t workerIndex);
 	private: void doRegisterSignalHandler();
@@ -298,10 +304,12 @@ class HttpServer {
 	private: const size_t workerCount;
 	private: std::vector<std::thread> workers;
 	private: std::unique_ptr<std::atomic_uint> launched;
+	private: std::unique_ptr<std::atomic_bool> runningSync; // The startSync call is within its worker function.
 	private: std::shared_ptr<Impl::Listener> listener;
 	private: std::unique_ptr<boost::asio::io_context> ioContext;
 	private: std::unique_ptr<std::mutex> mutex;
 	private: std::unique_ptr<boost::asio::signal_set> signalSet;
+	private: const bool registerSignalHandler;
 };
 
 } // namespace Network::Http
diff --git a/src/main/cpp/Balau/Network/Http/Server/Impl/Listener.hpp b/src/main/cpp/Balau/Network/Http/Server/Impl/Listener.hpp
index 39364bf..054bf9f 100644
--- a/src/main/cpp/Balau/Network/Http/Server/Impl/Listener.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/Impl/Listener.hpp
@@ -39,6 +39,7 @@ class Listener final : public std::enable_shared_from_this<Listener> {
 	public: Listener(std::shared_ptr<HttpServerConfiguration> serverConfiguration_,
 	                 boost::asio::io_context & context)
 		: serverConfiguration(std::move(serverConfiguration_))
+		, strand(context.get_executor())
 		, acceptor(context)
 		, socket(context) {
 		boost::system::error_code errorCode;
@@ -61,16 +62,32 @@ class Listener final : public std::enable_shared_from_this<Listener> {
 		return acceptor.is_open();
 	}
 
+	// Close the listener from within the workers.
 	public: void close() {
-		acceptor.close();
+		boost::asio::post(strand, std::bind(&Listener::doClose, shared_from_this()));
+	}
+
+	// Executed via the strand, or when there are no workers.
+	public: void doClose() {
+		boost::system::error_code errorCode;
+		acceptor.close(errorCode);
 		httpSessions.unregisterAllSessions(serverConfiguration->logger);
 	}
 
 	public: void doAccept() {
-		acceptor.async_accept(socket, std::bind(&Listener::onAccept, shared_from_this(), std::placeholders::_1));
+		acceptor.async_accept(
+			  socket
+			, boost::asio::bind_executor(
+				strand, std::bind(&Listener::onAccept, shared_from_this(), std::placeholders::_1)
+			)
+		);
 	}
 
 	private: void onAccept(boost::system::error_code errorCode) {
+		if (!acceptor.is_open()) {
+			errorCode = boost::asio::error::operation_aborted;
+		}
+
 		if (!errorCode) {
 			// ASIO states that following the socket move, the moved-from socket is in the same
 			// state as if constructed using basic_stream_socket<tcp>(io_context &) constructor.
@@ -116,6 +133,7 @@ class Listener final : public std::enable_shared_from_this<Listener> {
 	}
 
 	private: std::shared_ptr<HttpServerConfiguration> serverConfiguration;
+	private: boost::asio::strand<boost::asio::io_context::executor_type> strand;
 	private: TCP::acceptor acceptor;
 	private: TCP::socket socket;
 	private: Impl::HttpSessions httpSessions;
-- 
2.43.0


From 78c642694efe075b792f4906fdb6d9b9211413ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 119/125] fix: the WebSocket client leaves a socket alone that
 the closing handshake has closed

---
 src/main/cpp/Balau/Network/Http/Client/WsClient.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Http/Client/WsClient.hpp b/src/main/cpp/Balau/Network/Http/Client/WsClient.hpp
index d7879b2..81eb1b5 100644
--- a/src/main/cpp/Balau/Network/Http/Client/WsClient.hpp
+++ b/src/main/cpp/Balau/Network/Http/Client/WsClient.hpp
@@ -99,8 +99,12 @@ class WsClient {
 
 		////////////// Disconnect /////////////
 
+		// The closing handshake may have closed the socket.
 		boost::system::error_code errorCode {};
-		ws.next_layer().shutdown(TCP::socket::shutdown_both, errorCode);
+
+		if (ws.next_layer().is_open()) {
+			ws.next_layer().shutdown(TCP::socket::shutdown_both, errorCode);
+		}
 
 		// TODO clarify the following.
 		if (errorCode && errorCode != boost::system::errc::not_connected) {
-- 
2.43.0


From f8bcf2ad11c9ac882ae1c75d811287a209e95a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 120/125] fix: the home directory is found when HOME is not set

---
 src/main/cpp/Balau/Util/User.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Util/User.hpp b/src/main/cpp/Balau/Util/User.hpp
index cf699c1..b86885a 100644
--- a/src/main/cpp/Balau/Util/User.hpp
+++ b/src/main/cpp/Balau/Util/User.hpp
@@ -95,9 +95,10 @@ struct User final {
 			int s;
 			size_t bufferSize = 512;
 			std::vector<char> buffer(bufferSize);
-			bool repeat = false;
+			bool repeat;
 
 			do {
+				repeat = false;
 				s = getpwuid_r(getuid(), &pwd, buffer.data(), bufferSize, &result);
 
 				if (result == nullptr) {
@@ -106,7 +107,7 @@ struct User final {
 							  Exception::UserNotFoundException
 							, "Failed to locate the user home directory: user entry not found in passwd."
 						);
-					} else if (errno == ERANGE) {
+					} else if (s == ERANGE) {
 						// Give up at 1MB buffer size.
 						if (bufferSize >= 1048576) {
 							ThrowBalauException(
@@ -122,16 +123,16 @@ struct User final {
 						ThrowBalauException(
 							  Exception::UserNotFoundException
 							, "Failed to locate the user home directory: getpwnam_r raised an error, errno = " +
-							  ::toString(errno)
+							  ::toString(s)
 						);
 					}
 				}
-			} while (!repeat);
+			} while (repeat);
 
 			if (result == nullptr || result->pw_dir == nullptr) {
 				ThrowBalauException(
 					  Exception::UserNotFoundException
-					, ::toString("Failed to locate the user home directory: getpwnam_r raised an error, errno = ", errno)
+					, ::toString("Failed to locate the user home directory: getpwnam_r raised an error, errno = ", s)
 				);
 			}
 
-- 
2.43.0


From d8f17ff0508eaf58936c03616a630d07381b1648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 121/125] fix: the runtime data directory is created with
 access rights for the user only, as documented

---
 src/main/cpp/Balau/Util/Impl/AppImpl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Impl/AppImpl.hpp b/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
index ccb93f7..fbe2689 100644
--- a/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
@@ -148,7 +148,11 @@ struct AppImpl final {
 				}
 			}
 
-			dir.createDirectories();
+			if (dir.createDirectories()) {
+				// The access rights are restricted to the user.
+				boost::filesystem::permissions(dir.getEntry(), boost::filesystem::owner_all);
+			}
+
 			return dir;
 		#elif BOOST_OS_WINDOWS
 			#error "The Windows platform is not yet implemented."
-- 
2.43.0


From 9b2088544228b4387eaf47278308cf9d3c2adc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 122/125] fix: real random number ranges whose upper bound is
 zero, negative or large include it

---
 src/main/cpp/Balau/Util/Impl/RandomImpl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
index d9fc5ef..808af24 100644
--- a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
@@ -20,16 +20,18 @@
 #ifndef COM_BORA_SOFTWARE__BALAU_UTIL_IMPL__RANDOM_IMPL
 #define COM_BORA_SOFTWARE__BALAU_UTIL_IMPL__RANDOM_IMPL
 
+#include <cmath>
+#include <limits>
 #include <random>
 
 namespace Balau::Util::Impl {
 
 inline double inclusivise(double upper) {
-	return std::nextafter(upper, upper > 0.0 ? upper + 1.0 : upper - 1.0);
+	return std::nextafter(upper, std::numeric_limits<double>::infinity());
 }
 
 inline float inclusivise(float upper) {
-	return std::nextafter(upper, upper > 0.0f ? upper + 1.0f : upper - 1.0f);
+	return std::nextafter(upper, std::numeric_limits<float>::infinity());
 }
 
 template <typename IntegerT> inline IntegerT inclusivise(IntegerT upper) {
-- 
2.43.0


From a387f9885b3549de6b6723c336d9eefc90a3ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 123/125] fix: ports that are in use are recognised when
 initialising with a free port

---
 src/main/cpp/Balau/Testing/Util/NetworkTesting.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Util/NetworkTesting.hpp b/src/main/cpp/Balau/Testing/Util/NetworkTesting.hpp
index 0c61bc5..41ded2a 100644
--- a/src/main/cpp/Balau/Testing/Util/NetworkTesting.hpp
+++ b/src/main/cpp/Balau/Testing/Util/NetworkTesting.hpp
@@ -60,7 +60,9 @@ struct NetworkTesting final {
 			try {
 				port = code();
 			} catch (const Exception::NetworkException & e) {
-				if (Util::Strings::contains(e.what(), "address in use")) {
+				const std::string inUse = make_error_code(boost::system::errc::address_in_use).message();
+
+				if (Util::Strings::contains(e.what(), inUse)) {
 					--attemptsLeft;
 					continue;
 				} else {
-- 
2.43.0


From c32c718668d15476708979d9a1def7e42e276082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 124/125] fix: consuming an empty stream does not put the
 output stream into a failed state

---
 src/main/cpp/Balau/Util/Streams.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Streams.hpp b/src/main/cpp/Balau/Util/Streams.hpp
index 71c5c67..cc66adc 100644
--- a/src/main/cpp/Balau/Util/Streams.hpp
+++ b/src/main/cpp/Balau/Util/Streams.hpp
@@ -92,7 +92,10 @@ class Streams final {
 	/// output stream.
 	///
 	public: static void consume(std::ostream & dst, std::istream & src) {
-		dst << src.rdbuf();
+		// Inserting an empty buffer would put the output stream into a failed state.
+		if (src.peek() != std::istream::traits_type::eof()) {
+			dst << src.rdbuf();
+		}
 	}
 
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From b88d1eb52d5a3d45a6d771f5d641122560b06ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 125/125] fix: reading a directory is refused with a file not
 found exception, as documented

---
 src/main/cpp/Balau/Util/Files.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Files.hpp b/src/main/cpp/Balau/Util/Files.hpp
index 895e52f..5d33720 100644
--- a/src/main/cpp/Balau/Util/Files.hpp
+++ b/src/main/cpp/Balau/Util/Files.hpp
@@ -98,7 +98,7 @@ struct Files final {
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
 	///
 	static std::vector<std::string> toLines(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
@@ -119,7 +119,7 @@ struct Files final {
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
 	///
 	static std::string readToString(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
@@ -134,7 +134,7 @@ struct Files final {
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
 	///
 	static std::vector<char> readToVector(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
-- 
2.43.0

